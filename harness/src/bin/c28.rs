//! C28: hyperelastic materials.
use fenris::allocators::DimAllocator;
use fenris::assembly::local::{Density, SourceFunction};
use fenris::assembly::operators::{EllipticContraction, EllipticEnergy, EllipticOperator};
use fenris::nalgebra::{DMatrix, DVector, DVectorView, DefaultAllocator, OMatrix, OPoint, OVector, U1, U2, U3, U4};
use fenris::{SmallDim, Symmetry};
use fenris_solid::materials::*;
use fenris_solid::*;
use pbt::*;
use std::ops::{Add, Mul, Sub};

// ---------------------------------------------------------------------------------------------
// Hyper-dual numbers: a value, two directional derivatives and the mixed second derivative
// ---------------------------------------------------------------------------------------------
#[derive(Debug, Clone, Copy)]
struct H {
    v: f64,
    a: f64,
    b: f64,
    ab: f64,
}

fn h(v: f64) -> H {
    H { v, a: 0.0, b: 0.0, ab: 0.0 }
}

impl Add for H {
    type Output = H;
    fn add(self, o: H) -> H {
        H { v: self.v + o.v, a: self.a + o.a, b: self.b + o.b, ab: self.ab + o.ab }
    }
}
impl Sub for H {
    type Output = H;
    fn sub(self, o: H) -> H {
        H { v: self.v - o.v, a: self.a - o.a, b: self.b - o.b, ab: self.ab - o.ab }
    }
}
impl Mul for H {
    type Output = H;
    fn mul(self, o: H) -> H {
        H { v: self.v * o.v, a: self.a * o.v + self.v * o.a, b: self.b * o.v + self.v * o.b, ab: self.ab * o.v + self.a * o.b + self.b * o.a + self.v * o.ab }
    }
}
fn ln(x: H) -> H {
    H { v: x.v.ln(), a: x.a / x.v, b: x.b / x.v, ab: x.ab / x.v - x.a * x.b / (x.v * x.v) }
}

type M = Vec<Vec<f64>>;

fn det_h(f: &[Vec<H>]) -> H {
    match f.len() {
        1 => f[0][0],
        2 => f[0][0] * f[1][1] - f[0][1] * f[1][0],
        _ => {
            f[0][0] * (f[1][1] * f[2][2] - f[1][2] * f[2][1]) - f[0][1] * (f[1][0] * f[2][2] - f[1][2] * f[2][0]) + f[0][2] * (f[1][0] * f[2][1] - f[1][1] * f[2][0])
        }
    }
}

fn det(f: &M) -> f64 {
    det_h(&f.iter().map(|r| r.iter().map(|x| h(*x)).collect()).collect::<Vec<_>>()).v
}

fn det_abs(f: &M) -> f64 {
    match f.len() {
        1 => f[0][0].abs(),
        2 => (f[0][0] * f[1][1]).abs() + (f[0][1] * f[1][0]).abs(),
        _ => [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [1, 0, 2], [2, 1, 0]].iter().map(|p| (f[0][p[0]] * f[1][p[1]] * f[2][p[2]]).abs()).sum(),
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Kind {
    Linear,
    NeoHooke,
    StVK,
}

/// The documented energy density
fn energy(kind: Kind, f: &[Vec<H>], mu: f64, lambda: f64) -> H {
    let d = f.len();
    let mut strain = vec![vec![h(0.0); d]; d];
    for i in 0..d {
        for j in 0..d {
            let mut e = match kind {
                Kind::Linear => (f[i][j] + f[j][i]) * h(0.5),
                _ => (0..d).fold(h(0.0), |s, k| s + f[k][i] * f[k][j]),
            };
            if i == j {
                e = e - h(1.0);
            }
            strain[i][j] = if kind == Kind::Linear { e } else { e * h(0.5) };
        }
    }
    let trace = (0..d).fold(h(0.0), |s, i| s + strain[i][i]);
    if kind == Kind::NeoHooke {
        let l = ln(det_h(f));
        return h(mu) * trace - h(mu) * l + h(0.5 * lambda) * l * l;
    }
    let mut square = h(0.0);
    for r in &strain {
        for e in r {
            square = square + *e * *e;
        }
    }
    h(mu) * square + h(0.5 * lambda) * trace * trace
}

/// Energy with derivatives in the directions a and b
fn reference(kind: Kind, f: &M, a: &M, b: &M, mu: f64, lambda: f64) -> H {
    let d = f.len();
    let x: Vec<Vec<H>> = (0..d).map(|i| (0..d).map(|j| H { v: f[i][j], a: a[i][j], b: b[i][j], ab: 0.0 }).collect()).collect();
    energy(kind, &x, mu, lambda)
}

fn unit(d: usize, i: usize, j: usize) -> M {
    let mut m = vec![vec![0.0; d]; d];
    m[i][j] = 1.0;
    m
}

fn outer(d: usize, i: usize, a: &[f64]) -> M {
    let mut m = vec![vec![0.0; d]; d];
    m[i] = a.to_vec();
    m
}

fn mat<D: SmallDim>(m: &M) -> OMatrix<f64, D, D>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    OMatrix::<f64, D, D>::from_fn(|i, j| m[i][j])
}

fn frobenius(m: &M) -> f64 {
    m.iter().flatten().map(|x| x * x).sum::<f64>().sqrt()
}

/// Norm of the inverse, by cofactors
fn inverse_norm(m: &M) -> f64 {
    let d = m.len();
    let j = det(m).abs();
    if d == 1 {
        return 1.0 / j;
    }
    let mut s = 0.0;
    for i in 0..d {
        for k in 0..d {
            let minor: M = (0..d).filter(|r| *r != i).map(|r| (0..d).filter(|c| *c != k).map(|c| m[r][c]).collect()).collect();
            s += det(&minor).powi(2);
        }
    }
    s.sqrt() / j
}

fn rotation(c: &mut Case, d: usize) -> M {
    let mut q = (0..d).map(|i| (0..d).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect::<M>();
    for i in 0..d {
        for j in i + 1..d {
            let (s, k) = match c.int(0, 3) {
                0 => (0.0, 1.0),
                1 => (1.0, 0.0),
                _ => c.f64(-3.2, 3.2).sin_cos(),
            };
            for r in &mut q {
                let (x, y) = (r[i], r[j]);
                r[i] = k * x - s * y;
                r[j] = s * x + k * y;
            }
        }
    }
    q
}

fn product(a: &M, b: &M) -> M {
    let d = a.len();
    (0..d).map(|i| (0..d).map(|j| (0..d).map(|k| a[i][k] * b[k][j]).sum()).collect()).collect()
}

fn gen_f(c: &mut Case, d: usize) -> M {
    let mut f = vec![vec![0.0; d]; d];
    let way = c.int(0, 6);
    match way {
        0 => {
            for r in &mut f {
                for x in r.iter_mut() {
                    *x = c.grid(3, 1);
                }
            }
        }
        1 => {
            for r in &mut f {
                for x in r.iter_mut() {
                    *x = c.f64(-2.0, 2.0);
                }
            }
        }
        2 | 3 => {
            let s = c.magnitude(-10.0, -0.5);
            for r in &mut f {
                for x in r.iter_mut() {
                    *x = s * c.f64(-1.0, 1.0);
                }
            }
            for i in 0..d {
                f[i][i] += 1.0;
            }
        }
        4 => {
            let q = rotation(c, d);
            let p = rotation(c, d);
            for i in 0..d {
                f[i][i] = c.f64(0.2, 3.0);
            }
            f = product(&q, &product(&f, &p));
        }
        5 => {
            f = rotation(c, d);
        }
        _ => {
            let s = c.magnitude(-2.0, 3.0);
            for i in 0..d {
                for j in 0..d {
                    f[i][j] = s * if i == j { c.f64(0.5, 2.0) } else { c.f64(-0.6, 0.6) };
                }
            }
        }
    }
    f
}

fn gen_lame(c: &mut Case) -> (f64, f64) {
    let scale = if c.bool() { 1.0 } else { c.magnitude(-4.0, 9.0) };
    let mu = if c.chance(1, 8) { 0.0 } else { scale * c.f64(0.1, 2.0) };
    let lambda = match c.int(0, 7) {
        0 => 0.0,
        1 => -0.6 * mu,
        2 => scale * 1000.0,
        _ => scale * c.f64(0.1, 2.0),
    };
    (mu, lambda)
}

struct Subject<'a, D: SmallDim, L>(&'a L, Kind, std::marker::PhantomData<D>)
where
    DefaultAllocator: DimAllocator<f64, D>;

impl<'a, D: SmallDim, L> Subject<'a, D, L>
where
    DefaultAllocator: DimAllocator<f64, D>,
    L: HyperelasticMaterial<f64, D, Parameters = LameParameters<f64>>,
    OPoint<f64, D>: Send + Sync,
{
    fn laws(&self, c: &mut Case) -> Res {
        let d = D::USIZE;
        let kind = self.1;
        let (mu, lambda) = gen_lame(c);
        let p = LameParameters { mu, lambda };
        let f = gen_f(c, d);
        c.note(|| format!("{:?}, mu = {:?}, lambda = {:?}, F = {:?}", kind, mu, lambda, f));
        let fm = mat::<D>(&f);
        let u = mat::<D>(&f).transpose() - OMatrix::<f64, D, D>::identity();
        let law = self.0;
        let e1 = law.compute_energy_density(&fm, &p);
        let e2 = law.compute_energy_density_du(&u, &p);
        if kind == Kind::NeoHooke {
            let (j, s) = (det(&f), det_abs(&f));
            let integer = f.iter().flatten().all(|x| x.fract() == 0.0);
            let sure = j < -1e-12 * s || (integer && j <= 0.0);
            if sure {
                c.nontrivial();
                c.class("inverted or singular");
                ensure!(e1 == f64::INFINITY && e2 == f64::INFINITY, "det F = {}, the energy is {} and {}", j, e1, e2);
                return Ok(());
            }
            if j < 1e-3 * s || s == 0.0 {
                discard!("nearly singular");
            }
        }
        c.nontrivial_if(frobenius(&f) > 0.0);
        c.class(["linear", "Neo-Hooke", "StVK"][kind as usize]);
        c.class(["", "1D", "2D", "3D", "4D"][d]);
        let (nf, ni) = (frobenius(&f), if kind == Kind::NeoHooke { inverse_norm(&f) } else { 0.0 });
        let logj = if kind == Kind::NeoHooke { det(&f).ln().abs() } else { 0.0 };
        let cond = (1.0 + nf) * (1.0 + ni);
        let strain = match kind {
            Kind::Linear => 1.0 + nf,
            _ => 1.0 + nf * nf,
        };
        let tol = 1e-14 * (d * d * d) as f64 * cond.max(1.0);
        let (am, al) = (mu.abs(), lambda.abs());
        // energy
        let zero = unit(d, 0, 0);
        let want = reference(kind, &f, &zero, &zero, mu, lambda).v;
        let size = match kind {
            Kind::NeoHooke => am * (strain + logj) + al * (1.0 + logj) * (1.0 + logj),
            _ => (am + al) * strain * strain,
        };
        for (what, e) in [("", e1), (" from the displacement gradient", e2)] {
            ensure!((e - want).abs() <= tol * size, "energy{} {}, expected {}", what, e, want);
        }
        // stress
        let s1 = law.compute_stress_tensor(&fm, &p);
        let s2 = law.compute_stress_tensor_du(&u, &p);
        let ssize = match kind {
            Kind::Linear => (am + al) * strain,
            Kind::NeoHooke => am * nf + (am + al * (1.0 + logj)) * ni,
            Kind::StVK => (am + al) * nf * strain,
        };
        for i in 0..d {
            for j in 0..d {
                let want = reference(kind, &f, &unit(d, i, j), &zero, mu, lambda).a;
                for (what, s) in [("", &s1), (" from the displacement gradient", &s2)] {
                    ensure!((s[(i, j)] - want).abs() <= tol * ssize * cond, "stress{} ({}, {}) is {}, the derivative of the energy is {}", what, i, j, s[(i, j)], want);
                }
            }
        }
        // contractions
        let n = c.int(1, 3);
        let gen_vec = |c: &mut Case| c.vec(d * n, |c| if c.chance(1, 5) { 0.0 } else { c.coord(3.0) });
        let a = gen_vec(c);
        let b = gen_vec(c);
        let alpha = c.coord(2.0);
        c.note(|| format!("a = {:?}, b = {:?}, alpha = {}", a, b, alpha));
        let part = |v: &[f64], i: usize| v[i * d..(i + 1) * d].to_vec();
        let part_m = |v: &[f64], i: usize| OVector::<f64, D>::from_fn(|k, _| v[i * d + k]);
        let csize = match kind {
            Kind::Linear => am + al,
            Kind::NeoHooke => am + (am + al * (1.0 + logj)) * ni * ni,
            Kind::StVK => (am + al) * strain,
        };
        let norm = |v: &[f64]| v.iter().map(|x| x * x).sum::<f64>().sqrt();
        let mut want = vec![vec![0.0; d * n]; d * n];
        let mut bound = vec![vec![0.0; d * n]; d * n];
        for ia in 0..n {
            for ib in 0..n {
                let (pa, pb) = (part(&a, ia), part(&b, ib));
                let (va, vb) = (part_m(&a, ia), part_m(&b, ib));
                let c1 = law.compute_stress_contraction(&fm, &va, &vb, &p);
                let c2 = law.compute_stress_contraction_du(&u, &va, &vb, &p);
                let c3 = law.compute_stress_contraction(&fm, &vb, &va, &p);
                for i in 0..d {
                    for j in 0..d {
                        let w = reference(kind, &f, &outer(d, i, &pa), &outer(d, j, &pb), mu, lambda).ab;
                        let e = tol * csize * cond * norm(&pa) * norm(&pb) + 1e-300;
                        want[ia * d + i][ib * d + j] = w;
                        bound[ia * d + i][ib * d + j] = e;
                        for (what, m) in [("", &c1), (" from the displacement gradient", &c2)] {
                            ensure!((m[(i, j)] - w).abs() <= e, "contraction{} ({}, {}) with {:?} and {:?} is {}, the second derivative of the energy is {}", what, i, j, pa, pb, m[(i, j)], w);
                        }
                        ensure!((c3[(j, i)] - w).abs() <= e, "the contraction is not symmetric under exchange of the vectors {:?} and {:?}", pa, pb);
                    }
                }
            }
        }
        // many vectors at once, into a part of a larger matrix
        let pad = c.int(0, 2);
        let (av, bv) = (DVector::from_vec(a.clone()), DVector::from_vec(b.clone()));
        let before = DMatrix::from_fn(d * n + 2 * pad, d * n + 2 * pad, |i, j| ((7 * i + 3 * j) % 11) as f64 - 5.0);
        let operator = MaterialEllipticOperator::new(law);
        for way in 0..3 {
            let mut out = before.clone();
            {
                let view = out.view_mut((pad, pad), (d * n, d * n));
                let (av, bv) = (DVectorView::from(&av), DVectorView::from(&bv));
                match way {
                    0 => law.accumulate_stress_contractions_into(view, alpha, &fm, av, bv, &p),
                    1 => law.accumulate_stress_contractions_du_into(view, alpha, &u, av, bv, &p),
                    _ => operator.accumulate_contractions_into(view, alpha, &u, av, bv, &p),
                }
            }
            for i in 0..d * n + 2 * pad {
                for j in 0..d * n + 2 * pad {
                    let inside = i >= pad && j >= pad && i < pad + d * n && j < pad + d * n;
                    let (got, old) = (out[(i, j)], before[(i, j)]);
                    if !inside {
                        ensure!(got == old, "an entry outside of the output was changed");
                        continue;
                    }
                    let (i, j) = (i - pad, j - pad);
                    let full = old + alpha * want[i][j];
                    let e = alpha.abs() * bound[i][j] + 1e-15 * (old.abs() + full.abs());
                    // only the upper triangle has to be filled
                    ensure!((got - full).abs() <= e || (i > j && got == old), "accumulated contraction (way {}) at ({}, {}) is {}, expected {}", way, i, j, got, full);
                }
            }
        }
        ensure!(operator.symmetry() == Symmetry::Symmetric, "symmetry of the operator");
        ensure!((operator.compute_energy(&u, &p) - e2).abs() <= tol * size, "energy of the operator");
        ensure!((operator.compute_elliptic_operator_transpose(&u, &p) - &s2).norm() <= tol * ssize * cond, "transposed operator");
        ensure!((operator.compute_elliptic_operator(&u, &p) - s2.transpose()).norm() <= tol * ssize * cond, "operator");
        let (va, vb) = (part_m(&a, 0), part_m(&b, 0));
        let diff = operator.contract(&u, &va, &vb, &p) - law.compute_stress_contraction_du(&u, &va, &vb, &p);
        ensure!(diff.norm() <= tol * csize * cond * va.norm() * vb.norm() + 1e-300, "contraction of the operator");
        // wrong sizes are refused
        if c.chance(1, 10) {
            let (rows, cols, la) = match c.int(0, 3) {
                0 => (d * n + 1, d * n, d * n),
                1 => (d * n, d * n + 1, d * n),
                2 if d > 1 => (d * n, d * n, d * n + 1),
                _ => (d * n, d * n - 1, d * n),
            };
            let mut out = DMatrix::zeros(rows, cols);
            let long = DVector::from_element(la, 1.0);
            let r = catch(|| law.accumulate_stress_contractions_into(out.view_mut((0, 0), (rows, cols)), alpha, &fm, DVectorView::from(&long), DVectorView::from(&bv), &p));
            ensure!(r.is_err(), "output of size {} x {} is accepted for vectors of length {} and {}", rows, cols, la, d * n);
        }
        Ok(())
    }

    /// Undeformed state, rotations
    fn invariance(&self, c: &mut Case) -> Res {
        let d = D::USIZE;
        let kind = self.1;
        let (mu, lambda) = gen_lame(c);
        let p = LameParameters { mu, lambda };
        let law = self.0;
        let f = gen_f(c, d);
        let q = rotation(c, d);
        c.note(|| format!("{:?}, mu = {:?}, lambda = {:?}, F = {:?}, Q = {:?}", kind, mu, lambda, f, q));
        let id = OMatrix::<f64, D, D>::identity();
        let zero = OMatrix::<f64, D, D>::zeros();
        for (e, s) in [(law.compute_energy_density(&id, &p), law.compute_stress_tensor(&id, &p)), (law.compute_energy_density_du(&zero, &p), law.compute_stress_tensor_du(&zero, &p))] {
            ensure!(e.abs() <= 1e-15 * (mu + lambda.abs()), "energy of the undeformed state is {}", e);
            ensure!(s.iter().all(|x| x.abs() <= 1e-15 * (mu + lambda.abs())), "stress of the undeformed state is {:?}", s);
        }
        if kind == Kind::NeoHooke && det(&f) <= 1e-2 * det_abs(&f) {
            discard!("nearly singular or inverted");
        }
        c.nontrivial_if(d > 1);
        let (fm, qm) = (mat::<D>(&f), mat::<D>(&q));
        let nf = frobenius(&f);
        let ni = if kind == Kind::NeoHooke { inverse_norm(&f) } else { 0.0 };
        let scale = (mu.abs() + lambda.abs()) * (1.0 + nf.powi(4)) * (1.0 + ni).powi(2);
        let tol = 1e-13 * (d * d) as f64 * scale * (1.0 + nf * ni);
        let e = law.compute_energy_density(&fm, &p);
        let s = law.compute_stress_tensor(&fm, &p);
        let mut states = vec![("by rotating body and space", &qm * &fm * qm.transpose(), &qm * &s * qm.transpose())];
        if kind != Kind::Linear {
            states.push(("by a superposed rotation", &qm * &fm, &qm * &s));
            states.push(("by rotating the body", &fm * &qm, &s * &qm));
            let rot = law.compute_energy_density(&qm, &p);
            ensure!(rot.abs() <= 1e-12 * (mu.abs() + lambda.abs()), "energy of a rotation is {}", rot);
        }
        for (what, fq, sq) in states {
            let eq = law.compute_energy_density(&fq, &p);
            ensure!((eq - e).abs() <= tol, "the energy {} is changed {}: {}", e, what, eq);
            let got = law.compute_stress_tensor(&fq, &p);
            ensure!((&got - &sq).norm() <= tol, "the stress {:?} is {:?} when changed {}", s, got, what);
        }
        Ok(())
    }
}

macro_rules! each_law {
    ($c:expr, $f:ident) => {{
        use std::marker::PhantomData as P;
        let d = $c.int(1, 3);
        match ($c.int(0, 2), d) {
            (0, 1) => Subject::<U1, _>(&LinearElasticMaterial, Kind::Linear, P).$f($c),
            (0, 2) => Subject::<U2, _>(&LinearElasticMaterial, Kind::Linear, P).$f($c),
            (0, _) if $c.chance(1, 8) => Subject::<U4, _>(&LinearElasticMaterial, Kind::Linear, P).$f($c),
            (0, _) => Subject::<U3, _>(&LinearElasticMaterial, Kind::Linear, P).$f($c),
            (1, 1) => Subject::<U1, _>(&NeoHookeanMaterial, Kind::NeoHooke, P).$f($c),
            (1, 2) => Subject::<U2, _>(&NeoHookeanMaterial, Kind::NeoHooke, P).$f($c),
            (1, _) => Subject::<U3, _>(&NeoHookeanMaterial, Kind::NeoHooke, P).$f($c),
            (_, 1) => Subject::<U1, _>(&StVKMaterial, Kind::StVK, P).$f($c),
            (_, 2) => Subject::<U2, _>(&StVKMaterial, Kind::StVK, P).$f($c),
            (_, _) if $c.chance(1, 8) => Subject::<U4, _>(&StVKMaterial, Kind::StVK, P).$f($c),
            (_, _) => Subject::<U3, _>(&StVKMaterial, Kind::StVK, P).$f($c),
        }
    }};
}

fn laws(c: &mut Case) -> Res {
    each_law!(c, laws)
}

fn invariance(c: &mut Case) -> Res {
    each_law!(c, invariance)
}

// ---------------------------------------------------------------------------------------------
// Tiny displacements, against arithmetic with twice the precision
// ---------------------------------------------------------------------------------------------
#[derive(Debug, Clone, Copy)]
struct DD(f64, f64);

fn quick(a: f64, b: f64) -> DD {
    let s = a + b;
    DD(s, b - (s - a))
}
fn two_sum(a: f64, b: f64) -> DD {
    let s = a + b;
    let v = s - a;
    DD(s, (a - (s - v)) + (b - v))
}
impl Add for DD {
    type Output = DD;
    fn add(self, o: DD) -> DD {
        let s = two_sum(self.0, o.0);
        let t = two_sum(self.1, o.1);
        let s = quick(s.0, s.1 + t.0);
        quick(s.0, s.1 + t.1)
    }
}
impl Sub for DD {
    type Output = DD;
    fn sub(self, o: DD) -> DD {
        self + DD(-o.0, -o.1)
    }
}
impl Mul for DD {
    type Output = DD;
    fn mul(self, o: DD) -> DD {
        let p = self.0 * o.0;
        let e = self.0.mul_add(o.0, -p) + (self.0 * o.1 + self.1 * o.0);
        quick(p, e)
    }
}
fn div(a: DD, b: DD) -> DD {
    let q1 = a.0 / b.0;
    let r = a - b * DD(q1, 0.0);
    let q2 = r.0 / b.0;
    let r = r - b * DD(q2, 0.0);
    quick(q1, q2) + DD(r.0 / b.0, 0.0)
}
/// log(1 + x) for small x
fn log1p(x: DD) -> DD {
    let z = div(x, DD(2.0, 0.0) + x);
    let z2 = z * z;
    let mut t = z;
    let mut s = z;
    let mut k = 3.0;
    while t.0.abs() > 1e-34 * s.0.abs() && k < 200.0 {
        t = t * z2;
        s = s + div(t, DD(k, 0.0));
        k += 2.0;
    }
    s + s
}

/// det(I + u) - 1
fn gamma(u: &M) -> DD {
    let d = u.len();
    let x = |i: usize, j: usize| DD(u[i][j], 0.0);
    let one = DD(1.0, 0.0);
    match d {
        1 => x(0, 0),
        2 => x(0, 0) + x(1, 1) + x(0, 0) * x(1, 1) - x(0, 1) * x(1, 0),
        _ => {
            let tr = x(0, 0) + x(1, 1) + x(2, 2);
            let minors = x(0, 0) * x(1, 1) + x(0, 0) * x(2, 2) + x(1, 1) * x(2, 2);
            let diag = x(0, 0) * x(1, 1) * x(2, 2);
            let cyc = x(0, 1) * x(1, 2) * x(2, 0) + x(0, 2) * x(1, 0) * x(2, 1);
            let rest = x(0, 2) * (one + x(1, 1)) * x(2, 0) + x(0, 1) * x(1, 0) * (one + x(2, 2)) + (one + x(0, 0)) * x(1, 2) * x(2, 1);
            tr + minors + diag + cyc - rest
        }
    }
}

fn tiny_in<D: PhysicalDim>(c: &mut Case) -> Res
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let d = D::USIZE;
    let scale = if c.chance(1, 6) { c.f64(0.01, 2.0) } else { c.magnitude(-40.0, -1.5) };
    let mut u = vec![vec![0.0; d]; d];
    let skew = c.chance(1, 4);
    let traceless = c.chance(1, 4);
    for i in 0..d {
        for j in 0..d {
            u[i][j] = scale * if c.chance(1, 5) { 0.0 } else { c.f64(-1.0, 1.0) };
        }
    }
    for i in 0..d {
        for j in 0..i {
            if skew {
                u[i][j] = -u[j][i];
            }
        }
        if skew {
            u[i][i] = 0.0;
        }
    }
    if traceless && d > 1 {
        u[0][0] = -u[1][1];
        if d == 3 {
            u[2][2] = 0.0;
        }
    }
    let (mu, lambda) = gen_lame(c);
    c.note(|| format!("du/dX = {:?}, mu = {}, lambda = {}", u, mu, lambda));
    let um = mat::<D>(&u);
    let sum: f64 = u.iter().flatten().map(|x| x.abs()).sum();
    let size = sum * (1.0 + sum).powi(2);
    let g = gamma(&u);
    let got = log_det_F(&um);
    let p = LameParameters { mu, lambda };
    let e = HyperelasticMaterial::<f64, D>::compute_energy_density_du(&NeoHookeanMaterial, &um.transpose(), &p);
    c.nontrivial_if(sum > 0.0);
    if g.0 <= -1.0 {
        if g.0 > -1.0 - 1e-13 * (1.0 + size) && g.0 != -1.0 {
            discard!("nearly singular");
        }
        if g.0 == -1.0 && u.iter().flatten().any(|x| (x * 1024.0).fract() != 0.0) {
            discard!("nearly singular");
        }
        c.class("inverted");
        ensure!(got.is_none(), "det F = {}, but its logarithm is {:?}", 1.0 + g.0, got);
        ensure!(e == f64::INFINITY, "det F = {}, but the energy is {}", 1.0 + g.0, e);
        return Ok(());
    }
    let j = 1.0 + g.0;
    if j < 1e-3 * (1.0 + size) {
        discard!("nearly singular");
    }
    let Some(got) = got else { fail!("det F = {}, but there is no logarithm", j) };
    let small = g.0.abs() < 0.05;
    c.class(if small { "small displacements" } else { "large displacements" });
    let want = if small { log1p(g) } else { DD(g.0.ln_1p(), 0.0) };
    let log_bound = 1e-14 * (size / j + want.0.abs());
    ensure!((got - want.0).abs() <= log_bound, "log det F = {:e}, expected {:e} up to {:e}", got, want.0, log_bound);
    // energy: tr E - log J and the square of log J
    let mut tr = DD(0.0, 0.0);
    for i in 0..d {
        tr = tr + DD(u[i][i], 0.0);
        for j in 0..d {
            tr = tr + DD(0.5 * u[i][j], 0.0) * DD(u[i][j], 0.0);
        }
    }
    let psi = DD(mu, 0.0) * (tr - want) + DD(0.5 * lambda, 0.0) * want * want;
    let bound = 2.0 * mu.abs() * (log_bound + 1e-15 * size) + 2.0 * lambda.abs() * (want.0.abs() + log_bound) * log_bound + 1e-14 * psi.0.abs() + 1e-300;
    ensure!((e - psi.0).abs() <= bound, "the energy from the displacement gradient is {:e}, expected {:e} up to {:e}", e, psi.0, bound);
    Ok(())
}

fn tiny(c: &mut Case) -> Res {
    match c.int(1, 3) {
        1 => tiny_in::<U1>(c),
        2 => tiny_in::<U2>(c),
        _ => tiny_in::<U3>(c),
    }
}

/// Elastic moduli, gradients, gravity
fn conversions(c: &mut Case) -> Res {
    let young = c.magnitude(-6.0, 12.0);
    let poisson = match c.int(0, 3) {
        0 => 0.0,
        1 => c.f64(-0.99, 0.499),
        2 => 0.5 - c.magnitude(-9.0, -1.0),
        _ => c.f64(0.1, 0.45),
    };
    c.note(|| format!("E = {:?}, nu = {:?}", young, poisson));
    c.nontrivial_if(poisson != 0.0);
    let LameParameters { mu, lambda } = LameParameters::from(YoungPoisson { young, poisson });
    let close = |a: f64, b: f64| (a - b).abs() <= 1e-14 * (a.abs() + b.abs());
    ensure!(close(2.0 * mu * (1.0 + poisson), young), "mu = {} does not belong to E = {} and nu = {}", mu, young, poisson);
    ensure!(close(lambda * ((1.0 + poisson) * (1.0 - 2.0 * poisson)), young * poisson), "lambda = {} does not belong to E = {} and nu = {}", lambda, young, poisson);
    // uniaxial stress in a small-strain body has the ratio of Young's modulus, and no lateral stress
    if poisson < 0.49 {
        let strain = 1e-3;
        let f = OMatrix::<f64, U3, U3>::from_diagonal(&OVector::<f64, U3>::new(1.0 + strain, 1.0 - poisson * strain, 1.0 - poisson * strain));
        let s = LinearElasticMaterial.compute_stress_tensor(&f, &LameParameters { mu, lambda });
        let tol = 1e-9 * young * strain / (1.0 - 2.0 * poisson) / (1.0 + poisson);
        ensure!((s[(0, 0)] - young * strain).abs() <= tol && s[(1, 1)].abs() <= tol, "uniaxial strain {} gives stress {:?}, Young's modulus is {}", strain, s, young);
    }
    let u = OMatrix::<f64, U2, U2>::from_fn(|_, _| c.coord(3.0));
    let f = deformation_gradient(&u);
    for i in 0..2 {
        for j in 0..2 {
            let want = u[(j, i)] + if i == j { 1.0 } else { 0.0 };
            ensure!((f[(i, j)] - want).abs() <= 1e-15 * want.abs(), "deformation gradient of {:?} is {:?}", u, f);
        }
    }
    let back = u_grad_from_F(&f);
    ensure!((&back - &u).norm() <= 1e-15 * (1.0 + u.norm()) * 4.0, "the displacement gradient of {:?} is {:?}", f, back);
    let g = OVector::<f64, U3>::from_fn(|_, _| c.coord(10.0));
    let rho = c.magnitude(-3.0, 5.0);
    let x = OPoint::<f64, U3>::new(c.coord(5.0), c.coord(5.0), c.coord(5.0));
    let got = GravitySource::from_acceleration(g).evaluate(&x, &Density(rho));
    ensure!((got - g * rho).norm() <= 1e-14 * (g * rho).norm(), "gravity {:?} with density {} gives {:?}", g, rho, got);
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C28",
        rule: "deformation gradients other than zero (laws), more than one dimension (invariance), displacements other than zero (tiny), Poisson's ratio other than zero (conversions)",
        assumptions: &[
            "stress and contraction of Neo-Hookean materials in states with nearly zero or negative determinant are not judged: the code leaves them open",
            "lower triangles of accumulated contractions may be left untouched, as documented",
        ],
        clauses: vec![
            clause("laws", 2_000_000, 40_000_000, laws),
            clause("invariance", 4_000_000, 40_000_000, invariance),
            clause("tiny", 5_000_000, 100_000_000, tiny),
            clause("conversions", 4_000_000, 40_000_000, conversions),
        ],
    })
}
