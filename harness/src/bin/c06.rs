//! C06: conjugate gradient.
use fenris::nalgebra::{DMatrix, DVector, DVectorView, DVectorViewMut};
use fenris_sparse::cg::*;
use nalgebra_sparse::{CooMatrix, CsrMatrix};
use pbt::sparse_util::sum_rows;
use pbt::*;
use std::cell::{Cell, RefCell};
use std::error::Error;

type M = DMatrix<f64>;
type V = DVector<f64>;

/// Counts applications and fails at a given one
struct Op<'a> {
    a: &'a M,
    count: Cell<usize>,
    fail_at: Option<usize>,
}

impl<'a> Op<'a> {
    fn new(a: &'a M) -> Self {
        Op { a, count: Cell::new(0), fail_at: None }
    }
}

impl<'a> LinearOperator<f64> for Op<'a> {
    fn apply(&self, mut y: DVectorViewMut<f64>, x: DVectorView<f64>) -> Result<(), Box<dyn Error>> {
        let k = self.count.get();
        self.count.set(k + 1);
        if self.fail_at == Some(k) {
            return Err("injected failure".into());
        }
        y.copy_from(&(self.a * x));
        Ok(())
    }
}

fn orthogonal(c: &mut Case, n: usize) -> M {
    // product of reflections
    let mut q = M::identity(n, n);
    for _ in 0..c.int(0, 3) {
        let v = V::from_fn(n, |_, _| c.f64(-1.0, 1.0));
        let nn = v.norm_squared();
        if nn > 1e-6 {
            q = &q - (2.0 / nn) * (&q * &v) * v.transpose();
        }
    }
    q
}

/// SPD with the given eigenvalues
fn spd_with(c: &mut Case, eig: &[f64]) -> M {
    let q = orthogonal(c, eig.len());
    let d = M::from_diagonal(&V::from_column_slice(eig));
    let a = &q * d * q.transpose();
    (&a + a.transpose()) * 0.5
}

/// Returns the matrix and its condition number
fn gen_spd(c: &mut Case, n: usize) -> (M, f64) {
    let scale = if c.chance(1, 6) { c.magnitude(-40.0, 40.0) } else { c.magnitude(-3.0, 3.0) };
    let cond = 10f64.powf(c.f64(0.0, 3.0));
    let kinds = c.int(1, n.max(1));
    let vals: Vec<f64> = (0..kinds).map(|_| scale * cond.powf(c.unit())).collect();
    let eig: Vec<f64> = (0..n).map(|i| vals[i % kinds]).collect();
    let (lo, hi) = eig.iter().fold((f64::MAX, 0f64), |(l, h), x| (l.min(*x), h.max(*x)));
    (spd_with(c, &eig), if n > 0 { hi / lo } else { 1.0 })
}

fn gen_vec(c: &mut Case, n: usize) -> V {
    let s = if c.chance(1, 6) { c.magnitude(-40.0, 40.0) } else { c.magnitude(-3.0, 3.0) };
    V::from_fn(n, |_, _| s * c.coord(1.0))
}

fn to_csr(a: &M) -> CsrMatrix<f64> {
    let mut coo = CooMatrix::new(a.nrows(), a.ncols());
    for i in 0..a.nrows() {
        for j in 0..a.ncols() {
            if a[(i, j)] != 0.0 {
                coo.push(i, j, a[(i, j)]);
            }
        }
    }
    CsrMatrix::from(&coo)
}

fn solve_dense(a: &M, b: &V) -> V {
    a.clone().cholesky().expect("spd").solve(b)
}

/// Bound on the difference between the recurred and the true residual
fn residual_slack(a: &M, b: &V, x0: &V, sol: &V, iters: usize) -> f64 {
    let an = a.norm();
    1e2 * f64::EPSILON * (iters + a.nrows() + 2) as f64 * (an * (2.0 * sol.norm() + 2.0 * (x0 - sol).norm()) + b.norm())
}

fn solve(c: &mut Case) -> Res {
    let n = c.int(1, if c.thorough { 40 } else { 16 });
    let (a, cond) = gen_spd(c, n);
    let b = gen_vec(c, n);
    let x0 = match c.int(0, 3) {
        0 => V::zeros(n),
        1 => gen_vec(c, n),
        2 => solve_dense(&a, &b),
        _ => solve_dense(&a, &b) + 1e-3 * gen_vec(c, n),
    };
    let tol = c.magnitude(-9.0, -0.5);
    let p = match c.int(0, 2) {
        0 => M::identity(n, n),
        1 => M::from_diagonal(&a.diagonal().map(|x| 1.0 / x)),
        _ => gen_spd(c, n).0,
    };
    c.note(|| format!("A = {}b = {:?}\nx0 = {:?}\nP = {}tol = {:e}, cond = {:e}", a, b.as_slice(), x0.as_slice(), p, tol, cond));
    let sol = solve_dense(&a, &b);
    let csr = to_csr(&a);
    let sparse = c.bool();
    let limit = 200 * n + 2000;
    let mut x = x0.clone();
    let r = if sparse {
        ConjugateGradient::new()
            .with_operator(&csr)
            .with_preconditioner(&p)
            .with_max_iter(limit)
            .with_stopping_criterion(RelativeResidualCriterion::new(tol))
            .solve_with_guess(&b, &mut x)
    } else {
        ConjugateGradient::new()
            .with_operator(&a)
            .with_preconditioner(&p)
            .with_max_iter(limit)
            .with_stopping_criterion(RelativeResidualCriterion::new(tol))
            .solve_with_guess(&b, &mut x)
    };
    let out = match r {
        Ok(out) => out,
        Err(e) => fail!("solver failed on an SPD system: {:?}", e),
    };
    let k = out.num_iterations;
    c.class_if(k == 0, "no iteration");
    c.class_if(k > n, "more iterations than unknowns");
    c.nontrivial_if(k >= 2);
    let slack = residual_slack(&a, &b, &x0, &sol, k);
    let res = (&b - &a * &x).norm();
    ensure!(res <= tol * b.norm() * (1.0 + 1e-9) + slack, "true residual {:e} after reported success, tolerance {:e} * {:e}", res, tol, b.norm());
    if b.norm() == 0.0 {
        ensure!(k == 0 && x.norm() == 0.0, "zero right-hand side: {} iterations, x = {:?}", k, x.as_slice());
    }
    let res0 = (&b - &a * &x0).norm();
    if res0 + slack < tol * b.norm() {
        ensure!(k == 0 && x == x0, "the guess satisfies the tolerance but {} iterations were made", k);
    }
    if res0 > tol * b.norm() + slack && b.norm() > 0.0 {
        ensure!(k > 0, "converged without an iteration although the guess is not good enough");
    }
    // The limit is respected exactly
    let run = |m: Option<usize>| {
        let mut y = x0.clone();
        let cg = ConjugateGradient::new().with_operator(&a).with_preconditioner(&p);
        let cg = if let Some(m) = m { cg.with_max_iter(m) } else { cg };
        let r = cg.with_stopping_criterion(RelativeResidualCriterion::new(tol)).solve_with_guess(&b, &mut y);
        (r, y)
    };
    let (r, full) = run(None);
    let k = r.map_err(|e| format!("solver failed without a limit: {:?}", e))?.num_iterations;
    let (r, y) = run(Some(k));
    ensure_eq!(r.map_err(|e| format!("limit {} that suffices is reported as reached: {:?}", k, e))?.num_iterations, k, "iterations with a limit that suffices");
    ensure!(y == full, "result with a sufficient limit differs");
    if k > 0 {
        let m = c.int(0, k - 1);
        match run(Some(m)).0 {
            Ok(o) => fail!("success after {} iterations with limit {}, {} are needed", o.num_iterations, m, k),
            Err(e) => {
                ensure_eq!(e.output.num_iterations, m, "iterations when the limit is reached");
                ensure!(matches!(e.kind, SolveErrorKind::MaxIterationsReached { max_iter } if max_iter == m), "wrong reason {:?}", e.kind);
            }
        }
    }
    Ok(())
}

/// The k-th iterate minimizes the energy norm of the error over the (preconditioned) Krylov space.
fn optimality(c: &mut Case) -> Res {
    let n = c.int(1, 7);
    let kinds = c.int(1, n);
    let vals: Vec<f64> = (0..kinds).map(|i| 1.0 + 2.0 * i as f64 + c.unit()).collect();
    let eig: Vec<f64> = (0..n).map(|i| vals[i % kinds]).collect();
    let a = spd_with(c, &eig);
    let peig: Vec<f64> = (0..n).map(|_| 0.5 + c.unit()).collect();
    let p = if c.bool() { spd_with(c, &peig) } else { M::identity(n, n) };
    let b = V::from_fn(n, |_, _| c.f64(-1.0, 1.0));
    let x0 = V::from_fn(n, |_, _| c.f64(-1.0, 1.0));
    let k = c.int(1, 5);
    c.note(|| format!("A = {}b = {:?}\nx0 = {:?}\nP = {}k = {}", a, b.as_slice(), x0.as_slice(), p, k));
    let sol = solve_dense(&a, &b);
    let mut x = x0.clone();
    let r = ConjugateGradient::new()
        .with_operator(&a)
        .with_preconditioner(&p)
        .with_max_iter(k)
        .with_stopping_criterion(RelativeResidualCriterion::new(1e-11))
        .solve_with_guess(&b, &mut x);
    if let Err(e) = &r {
        if matches!(e.kind, SolveErrorKind::IndefiniteOperator | SolveErrorKind::IndefinitePreconditioner) {
            // Only at the level of rounding errors
            ensure!((&b - &a * &x).norm() <= 1e-9, "SPD system reported as {:?}", e.kind);
            return Ok(());
        }
        ensure_eq!(e.output.num_iterations, k, "iterations at the limit");
    }
    // Orthonormal basis of the Krylov space of P A started at P r0
    let mut basis: Vec<V> = vec![];
    let mut w = &p * (&b - &a * &x0);
    for _ in 0..k {
        let scale = w.norm();
        for _ in 0..2 {
            for q in &basis {
                w -= q.dot(&w) * q;
            }
        }
        if w.norm() <= 1e-9 * (1.0 + scale) {
            break;
        }
        let q = w.normalize();
        w = &p * (&a * &q);
        basis.push(q);
    }
    let energy = |e: &V| e.dot(&(&a * e)).max(0.0).sqrt();
    let best = if basis.is_empty() {
        x0.clone()
    } else {
        let q = M::from_columns(&basis);
        let small = q.transpose() * &a * &q;
        let rhs = q.transpose() * (&b - &a * &x0);
        &x0 + &q * small.cholesky().expect("spd").solve(&rhs)
    };
    let (got, opt, init) = (energy(&(&x - &sol)), energy(&(&best - &sol)), energy(&(&x0 - &sol)));
    c.nontrivial_if(basis.len() >= 2 && opt > 1e-6);
    c.class_if(opt <= 1e-6, "terminated within the limit");
    ensure!(got <= opt + 1e-7 * (1.0 + init), "error {:e} in the energy norm after {} iterations, optimum over the Krylov space is {:e}", got, k, opt);
    Ok(())
}

fn workspace(c: &mut Case) -> Res {
    let mut ws = CgWorkspace::default();
    let m = c.int(2, 5);
    let mut sizes = vec![];
    for _ in 0..m {
        let n = c.int(0, 8);
        sizes.push(n);
        let (a, _) = gen_spd(c, n);
        let b = if c.chance(1, 8) { V::zeros(n) } else { gen_vec(c, n) };
        let x0 = gen_vec(c, n);
        let tol = c.magnitude(-8.0, -1.0);
        let limit = if c.bool() { c.int(0, 5) } else { 10_000 };
        let negative = c.chance(1, 8);
        let op = if negative { -&a } else { a };
        let (mut b, mut limit) = (b, limit);
        if n > 0 && c.chance(1, 6) {
            // a solve that leaves numbers that are not finite in the workspace
            b[c.int(0, n - 1)] = *c.pick(&[f64::NAN, f64::INFINITY, 1e300, -1e180]);
            limit = c.int(0, 12);
            c.class("numbers that are not finite");
        }
        let (b, limit) = (b, limit);
        let (sparse, csr) = (c.bool(), to_csr(&op));
        let jacobi = c.chance(1, 4);
        let inverse = CsrMatrix::from(&DMatrix::from_diagonal(&op.diagonal().map(|v| 1.0 / v.abs().max(1e-30))));
        let op: &dyn LinearOperator<f64> = if sparse { &csr } else { &op };
        c.note(|| format!("A = {}{}b = {:?} x0 = {:?} tol {:e} limit {}{}", DMatrix::from(&csr), if sparse { "(sparse) " } else { "" }, b.as_slice(), x0.as_slice(), tol, limit, if jacobi { ", preconditioned" } else { "" }));
        let (mut x1, mut x2) = (x0.clone(), x0.clone());
        macro_rules! solve {
            ($cg:expr, $x:expr) => {{
                let cg = $cg.with_operator(op).with_max_iter(limit).with_stopping_criterion(RelativeResidualCriterion::new(tol));
                if jacobi {
                    cg.with_preconditioner(&inverse).solve_with_guess(&b, $x)
                } else {
                    let mut cg = cg;
                    cg.solve_with_guess(&b, $x)
                }
            }};
        }
        let r1 = solve!(ConjugateGradient::with_workspace(&mut ws), &mut x1);
        let r2 = solve!(ConjugateGradient::new(), &mut x2);
        let same = x1.iter().zip(x2.iter()).all(|(a, b)| a == b || (a.is_nan() && b.is_nan()));
        ensure!(same, "reused workspace gives {:?}, fresh workspace gives {:?}", x1.as_slice(), x2.as_slice());
        ensure_eq!(format!("{:?}", r1), format!("{:?}", r2), "outcome with a reused workspace");
    }
    c.nontrivial_if(sizes.windows(2).any(|w| w[0] != w[1]));
    Ok(())
}

/// One solver object used several times
fn solver_history(c: &mut Case) -> Res {
    let n = c.int(1, 6);
    let (a, _) = gen_spd(c, n);
    let tol = c.magnitude(-8.0, -1.0);
    let mut cg = ConjugateGradient::new().with_operator(&a).with_max_iter(5000).with_stopping_criterion(RelativeResidualCriterion::new(tol));
    for _ in 0..c.int(2, 4) {
        let b = if c.chance(1, 8) { V::zeros(n) } else { gen_vec(c, n) };
        let x0 = gen_vec(c, n);
        let (mut x1, mut x2) = (x0.clone(), x0.clone());
        let r1 = cg.solve_with_guess(&b, &mut x1);
        let r2 = ConjugateGradient::new()
            .with_operator(&a)
            .with_max_iter(5000)
            .with_stopping_criterion(RelativeResidualCriterion::new(tol))
            .solve_with_guess(&b, &mut x2);
        if let Ok(o) = &r1 {
            c.nontrivial_if(o.num_iterations > 0);
        }
        ensure_eq!(format!("{:?}", r1), format!("{:?}", r2), "outcome with a reused solver");
        ensure!(x1 == x2, "solution with a reused solver differs");
    }
    Ok(())
}

/// Operators and preconditioners that are not positive definite must not lead to a wrong success
fn indefinite(c: &mut Case) -> Res {
    let n = c.int(1, 8);
    let (a, _) = gen_spd(c, n);
    let b = V::from_fn(n, |_, _| c.f64(-1.0, 1.0));
    if b.norm() < 1e-3 {
        discard!("right-hand side too small");
    }
    let x0 = V::zeros(n);
    let tol = c.magnitude(-8.0, -2.0);
    match c.int(0, 3) {
        0 => {
            c.class("negative definite operator");
            c.nontrivial();
            let op = -&a;
            let mut x = x0.clone();
            let r = ConjugateGradient::new()
                .with_operator(&op)
                .with_max_iter(1000)
                .with_stopping_criterion(RelativeResidualCriterion::new(tol))
                .solve_with_guess(&b, &mut x);
            match r {
                Err(SolveError { kind: SolveErrorKind::IndefiniteOperator, .. }) => {}
                r => fail!("negative definite operator gives {:?}", r),
            }
        }
        1 => {
            c.class("negative definite preconditioner");
            c.nontrivial();
            let p = -M::identity(n, n);
            let mut x = x0.clone();
            let r = ConjugateGradient::new()
                .with_operator(&a)
                .with_preconditioner(&p)
                .with_max_iter(1000)
                .with_stopping_criterion(RelativeResidualCriterion::new(tol))
                .solve_with_guess(&b, &mut x);
            match r {
                Err(SolveError { kind: SolveErrorKind::IndefinitePreconditioner, .. }) => {}
                r => fail!("negative definite preconditioner gives {:?}", r),
            }
        }
        2 => {
            c.class("zero operator");
            c.nontrivial();
            let op = M::zeros(n, n);
            let mut x = x0.clone();
            let r = ConjugateGradient::new()
                .with_operator(&op)
                .with_max_iter(1000)
                .with_stopping_criterion(RelativeResidualCriterion::new(tol))
                .solve_with_guess(&b, &mut x);
            match r {
                Err(SolveError { kind: SolveErrorKind::IndefiniteOperator, .. }) => {}
                r => fail!("zero operator gives {:?}", r),
            }
        }
        _ => {
            c.class("indefinite operator");
            let eig: Vec<f64> = (0..n).map(|i| (1.0 + c.unit()) * if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
            let op = spd_with(c, &eig);
            c.note(|| format!("A = {}b = {:?}, tol {:e}", op, b.as_slice(), tol));
            let mut x = x0.clone();
            let r = ConjugateGradient::new()
                .with_operator(&op)
                .with_max_iter(50)
                .with_stopping_criterion(RelativeResidualCriterion::new(tol))
                .solve_with_guess(&b, &mut x);
            match r {
                Ok(_) => {
                    let res = (&b - &op * &x).norm();
                    ensure!(res <= tol * b.norm() + 1e-9 * (1.0 + x.norm()), "success with residual {:e}, tolerance {:e}", res, tol);
                }
                Err(e) => {
                    c.nontrivial();
                    ensure!(
                        matches!(e.kind, SolveErrorKind::IndefiniteOperator | SolveErrorKind::IndefinitePreconditioner | SolveErrorKind::MaxIterationsReached { .. }),
                        "unexpected reason {:?}",
                        e.kind
                    )
                }
            }
        }
    }
    Ok(())
}

/// Counts its calls; reset must be called once per solve, before the first question
#[derive(Default)]
struct Recording {
    resets: Cell<usize>,
    iterations: RefCell<Vec<usize>>,
    worst: Cell<f64>,
    stop_at: usize,
    fail_at: Option<usize>,
}

impl CgStoppingCriterion<f64> for &Recording {
    fn reset(&self, _a: &dyn LinearOperator<f64>, _x: DVectorView<f64>, _b: DVectorView<f64>) {
        self.resets.set(self.resets.get() + 1);
        self.iterations.borrow_mut().clear();
    }

    fn has_converged(
        &self,
        a: &dyn LinearOperator<f64>,
        x: DVectorView<f64>,
        b: DVectorView<f64>,
        b_norm: f64,
        iteration: usize,
        r: DVectorView<f64>,
    ) -> Result<bool, SolveErrorKind> {
        self.iterations.borrow_mut().push(iteration);
        let mut ax = V::zeros(b.len());
        a.apply(DVectorViewMut::from(&mut ax), x).unwrap();
        let e = (b - ax - r).norm() / (1.0 + b.norm()) + (b_norm - b.norm()).abs();
        self.worst.set(self.worst.get().max(e));
        if self.fail_at == Some(iteration) {
            return Err(SolveErrorKind::StoppingCriterionError("injected".into()));
        }
        Ok(iteration >= self.stop_at)
    }
}

fn protocol(c: &mut Case) -> Res {
    let n = c.int(2, 6);
    let eig: Vec<f64> = (0..n).map(|i| 1.0 + i as f64 + c.unit()).collect();
    let a = spd_with(c, &eig);
    let b = V::from_fn(n, |_, _| c.f64(0.1, 1.0));
    let stop_at = c.int(0, n - 1);
    let fail_at = if c.bool() { Some(c.int(0, n - 1)) } else { None };
    let crit = Recording { stop_at, fail_at, ..Default::default() };
    let mut cg = ConjugateGradient::new().with_operator(Op::new(&a)).with_max_iter(50).with_stopping_criterion(&crit);
    for solve in 1..=c.int(1, 3) {
        let mut x = V::from_fn(n, |_, _| c.f64(-1.0, 1.0));
        let r = cg.solve_with_guess(&b, &mut x);
        ensure_eq!(crit.resets.get(), solve, "calls of reset after {} solves", solve);
        let its = crit.iterations.borrow().clone();
        let last = *its.last().unwrap_or(&0);
        ensure_eq!(its, (0..=last).collect::<Vec<_>>(), "iterations at which the criterion was asked");
        match (r, fail_at) {
            (Err(SolveError { kind: SolveErrorKind::StoppingCriterionError(_), output, .. }), Some(f)) if f <= stop_at => {
                ensure_eq!((last, output.num_iterations), (f, f), "iteration of the criterion's error")
            }
            (Ok(o), f) if f.map_or(true, |f| f > stop_at) => ensure_eq!((last, o.num_iterations), (stop_at, stop_at), "iteration at which to stop"),
            // Exact convergence (zero residual) makes the next direction vanish
            (Err(e), _) if matches!(e.kind, SolveErrorKind::IndefiniteOperator) && (&b - &a * &x).norm() < 1e-9 => {}
            (r, f) => fail!("outcome {:?} with a criterion that stops at {} and fails at {:?}", r, stop_at, f),
        }
        ensure!(crit.worst.get() < 1e-9, "the residual given to the criterion is off by {:e}", crit.worst.get());
        c.nontrivial_if(last >= 1);
    }
    // a guess of another size
    let size = if c.bool() { n + c.int(1, 3) } else { n - c.int(1, n) };
    let mut x = V::zeros(size);
    let r = catch(|| cg.solve_with_guess(&b, &mut x).is_ok());
    ensure!(!matches!(r, Ok(true)), "a right-hand side with {} entries is solved for {} unknowns", n, size);
    Ok(())
}

fn faults(c: &mut Case) -> Res {
    let n = c.int(2, 6);
    let eig: Vec<f64> = (0..n).map(|i| 1.0 + 3.0 * i as f64 + c.unit()).collect();
    let a = spd_with(c, &eig);
    let id = M::identity(n, n);
    let b = V::from_fn(n, |_, _| c.f64(0.1, 1.0));
    let (mut op, mut pre) = (Op::new(&a), Op::new(&id));
    let k = c.int(0, 3);
    let which = c.bool();
    if which {
        op.fail_at = Some(k)
    } else {
        pre.fail_at = Some(k)
    }
    let mut x = V::zeros(n);
    let r = ConjugateGradient::new()
        .with_operator(&op)
        .with_preconditioner(&pre)
        .with_max_iter(100)
        .with_stopping_criterion(RelativeResidualCriterion::new(1e-9))
        .solve_with_guess(&b, &mut x);
    let hit = if which { op.count.get() > k } else { pre.count.get() > k };
    c.nontrivial_if(hit);
    match r {
        Err(SolveError { kind: SolveErrorKind::OperatorError(_), .. }) => ensure!(hit && which, "wrong error"),
        Err(SolveError { kind: SolveErrorKind::PreconditionerError(_), .. }) => ensure!(hit && !which, "wrong error"),
        Ok(_) => {
            ensure!(!hit, "the error of application {} is lost", k);
            ensure!((&b - &a * &x).norm() <= 1e-8 * b.norm(), "wrong solution");
        }
        Err(e) => fail!("unexpected reason {:?}", e.kind),
    }
    Ok(())
}

/// y = A x exactly, independent of the contents of y
fn operators(c: &mut Case) -> Res {
    let (m, n) = (c.int(1, 7), c.int(1, 7));
    let a = M::from_fn(m, n, |_, _| if c.bool() { c.sint(-5, 5) as f64 } else { 0.0 });
    let x = V::from_fn(n, |_, _| c.sint(-5, 5) as f64);
    c.nontrivial_if(a.iter().filter(|v| **v != 0.0).count() >= 3);
    c.note(|| format!("A = {}x = {:?}", a, x.as_slice()));
    let mut exp = V::zeros(m);
    for i in 0..m {
        for j in 0..n {
            exp[i] += a[(i, j)] * x[j];
        }
    }
    let csr = to_csr(&a);
    // what is in the output before does not matter
    let old = *c.pick(&[1e3, f64::NAN, f64::INFINITY]);
    let junk = || V::from_element(m, old);
    let xv = DVectorView::from(&x);
    for (name, op) in [("dense", &a as &dyn LinearOperator<f64>), ("csr", &csr)] {
        let mut y = junk();
        op.apply(DVectorViewMut::from(&mut y), xv).map_err(|e| e.to_string())?;
        ensure_eq!(y, exp, "{} operator", name);
        let mut y = junk();
        LinearOperator::apply(&op, DVectorViewMut::from(&mut y), xv).map_err(|e| e.to_string())?;
        ensure_eq!(y, exp, "{} operator behind a reference", name);
    }
    let mut y = V::from_element(n, old);
    LinearOperator::<f64>::apply(&IdentityOperator, DVectorViewMut::from(&mut y), xv).map_err(|e| e.to_string())?;
    ensure_eq!(y, x, "identity operator");
    Ok(())
}

/// Symmetric and diagonally dominant sparse matrix of a random graph, with a bound on its condition number
fn gen_graph(c: &mut Case, n: usize) -> (CsrMatrix<f64>, f64) {
    let kind = c.int(0, 2);
    let shift = c.magnitude(-3.0, 1.0);
    let hub = c.bool();
    let mut d = c.dice();
    let mut rows: Vec<Vec<(usize, f64)>> = vec![vec![]; n];
    let mut edge = |i: usize, j: usize, w: f64| {
        rows[i].push((j, -w));
        rows[j].push((i, -w));
        rows[i].push((i, w));
        rows[j].push((j, w));
    };
    let side = (n as f64).sqrt() as usize;
    for i in 1..n {
        edge(i - 1, i, d.f64(0.5, 1.5));
        match kind {
            1 if i >= side => edge(i - side, i, d.f64(0.5, 1.5)),
            2 => edge(i, d.int(0, i - 1), d.f64(0.5, 1.5)),
            _ => {}
        }
        if hub && i < n.min(500) {
            edge(0, i, 0.01);
        }
    }
    for i in 0..n {
        rows[i].push((i, shift));
    }
    let (offsets, cols, vals) = sum_rows(rows);
    let a = CsrMatrix::try_from_csr_data(n, n, offsets, cols, vals).unwrap();
    // Gershgorin
    let top = a.row_iter().map(|r| r.values().iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max);
    c.note(|| format!("graph {} with {} nodes, shift {:e}, hub: {}", kind, n, shift, hub));
    (a, top / shift)
}

fn times(a: &CsrMatrix<f64>, x: &V) -> V {
    V::from_iterator(a.nrows(), a.row_iter().map(|r| r.col_indices().iter().zip(r.values()).map(|(j, v)| v * x[*j]).sum::<f64>()))
}

/// Systems with up to a hundred thousand unknowns
fn huge(c: &mut Case) -> Res {
    let n = c.size(100_000).max(1);
    let (a, cond) = gen_graph(c, n);
    c.class_if(n > 1000, "> 1000 unknowns");
    let mut d = c.dice();
    let b = V::from_fn(n, |_, _| d.f64(-1.0, 1.0));
    let mut y = V::from_element(n, f64::NAN);
    LinearOperator::apply(&a, DVectorViewMut::from(&mut y), DVectorView::from(&b)).map_err(|e| e.to_string())?;
    let e = (&y - times(&a, &b)).amax();
    ensure!(e <= 1e-9 * (1.0 + cond), "application of a sparse operator is off by {:e}", e);
    let tol = c.magnitude(-6.0, -1.0);
    let guess = c.bool();
    let mut x = if guess { V::from_fn(n, |_, _| d.f64(-1.0, 1.0)) } else { V::zeros(n) };
    let diag = V::from_iterator(n, a.diagonal_as_csr().values().iter().map(|v| 1.0 / v));
    let jacobi = c.bool();
    let pre = Diagonal(&diag);
    let r0 = (&b - times(&a, &x)).norm();
    let cg = ConjugateGradient::new().with_operator(&a).with_stopping_criterion(RelativeResidualCriterion::new(tol)).with_max_iter(20_000);
    let r = if jacobi { cg.with_preconditioner(&pre).solve_with_guess(&b, &mut x) } else { let mut cg = cg; cg.solve_with_guess(&b, &mut x) };
    let k = match r {
        Ok(o) => o.num_iterations,
        Err(e) => fail!("solver failed on an SPD system: {:?}", e.kind),
    };
    c.class_if(k > 64, "> 64 iterations");
    c.nontrivial_if(n > 64 && k > 2);
    let res = (&b - times(&a, &x)).norm();
    ensure!(res <= tol * b.norm() * (1.0 + 1e-6) + 1e-12 * cond * r0, "residual {:e} after {} iterations, right-hand side {:e}, tolerance {:e}", res, k, b.norm(), tol);
    if !jacobi {
        // Convergence rate
        let q = (cond.sqrt() - 1.0) / (cond.sqrt() + 1.0);
        let bound = ((2.0 * cond.sqrt() * r0.max(b.norm()) / (tol * b.norm())).ln() / -q.ln()).max(0.0);
        ensure!(k as f64 <= 1.1 * bound + 10.0, "{} iterations, condition number {:e}, tolerance {:e}, at most {} expected", k, cond, tol, bound);
    }
    Ok(())
}

struct Diagonal<'a>(&'a V);

impl<'a> LinearOperator<f64> for Diagonal<'a> {
    fn apply(&self, mut y: DVectorViewMut<f64>, x: DVectorView<f64>) -> Result<(), Box<dyn Error>> {
        y.copy_from(&x.component_mul(self.0));
        Ok(())
    }
}

/// As `optimality`, with many unknowns and iterations
fn long_optimality(c: &mut Case) -> Res {
    let n = c.size(300).max(2);
    let (a, cond) = gen_graph(c, n);
    if cond > 1e4 {
        discard!("ill-conditioned");
    }
    let k = c.size(100).max(1);
    let mut d = c.dice();
    let b = V::from_fn(n, |_, _| d.f64(-1.0, 1.0));
    let x0 = V::from_fn(n, |_, _| d.f64(-1.0, 1.0));
    let diag = V::from_iterator(n, a.diagonal_as_csr().values().iter().map(|v| 1.0 / v));
    let one = V::repeat(n, 1.0);
    let p = if c.bool() { &diag } else { &one };
    c.note(|| format!("{} iterations", k));
    let mut x = x0.clone();
    let r = ConjugateGradient::new()
        .with_operator(&a)
        .with_preconditioner(Diagonal(p))
        .with_max_iter(k)
        .with_stopping_criterion(RelativeResidualCriterion::new(1e-12))
        .solve_with_guess(&b, &mut x);
    match r {
        Err(SolveError { kind: SolveErrorKind::MaxIterationsReached { .. }, output, .. }) => ensure_eq!(output.num_iterations, k, "iterations at the limit"),
        Err(e) => ensure!((&b - times(&a, &x)).norm() <= 1e-9 * cond, "SPD system reported as {:?}", e.kind),
        Ok(_) => {}
    }
    let r0 = &b - times(&a, &x0);
    let mut basis: Vec<V> = vec![];
    let mut images: Vec<V> = vec![];
    let mut w = p.component_mul(&r0);
    for _ in 0..k.min(n) {
        let scale = w.norm();
        for _ in 0..2 {
            for q in &basis {
                let t = q.dot(&w);
                w.axpy(-t, q, 1.0);
            }
        }
        if w.norm() <= 1e-9 * (1.0 + scale) {
            break;
        }
        let q = w.normalize();
        let aq = times(&a, &q);
        w = p.component_mul(&aq);
        images.push(aq);
        basis.push(q);
    }
    // Rounding errors may delay the convergence
    let m = if basis.len() <= 10 { basis.len() } else { 9 * basis.len() / 10 };
    let small = M::from_fn(m, m, |i, j| basis[i].dot(&images[j]));
    let small = (&small + small.transpose()) * 0.5;
    let rhs = V::from_fn(m, |i, _| basis[i].dot(&r0));
    let y = match small.cholesky() {
        Some(ch) => ch.solve(&rhs),
        None => discard!("degenerate Krylov basis"),
    };
    // A reference solution: the energy norm of errors is compared through the functional f(x) = x^T A x / 2 - b^T x
    let mut best = x0.clone();
    for i in 0..m {
        best.axpy(y[i], &basis[i], 1.0);
    }
    let f = |x: &V| 0.5 * x.dot(&times(&a, x)) - b.dot(x);
    let (got, opt, init) = (f(&x), f(&best), f(&x0));
    c.nontrivial_if(m >= 20 && init - opt > 1e-3);
    c.class_if(m > 64, "> 64 iterations");
    ensure!(got <= opt + 1e-7 * (init - opt).abs() + 1e-10 * cond, "energy {:e} after {} iterations, minimum over {} dimensions of the Krylov space is {:e} (initially {:e})", got, k, m, opt, init);
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C06",
        rule: "SPD matrices with prescribed eigenvalues (condition number up to 1e3, scale 1e-3..1e3, sometimes 1e-40..1e40, repeated eigenvalues), right-hand sides, guesses (zero, random, exact, nearly exact), identity/Jacobi/random SPD preconditioners, dense and sparse operators, tolerances 1e-9..0.3, limits around the number of iterations needed; histories on one workspace or solver; failing and indefinite operators; weighted graph Laplacians with up to 100000 unknowns (huge) and 100 iterations of optimality (long_optimality). Non-trivial: at least two iterations / non-trivial Krylov space / changing sizes / an injected fault that is hit; huge: more than 64 unknowns and 2 iterations; long_optimality: at least 20 dimensions.",
        assumptions: &["the difference between the recurred and the true residual is bounded by a multiple of machine precision times the size of the system"],
        clauses: vec![
            clause("solve", 480_000, 4_800_000, solve),
            clause("optimality", 1_800_000, 18_000_000, optimality),
            clause("workspace", 800_000, 8_000_000, workspace),
            clause("solver_history", 1_200_000, 12_000_000, solver_history),
            clause("indefinite", 1_200_000, 12_000_000, indefinite),
            clause("protocol", 1_200_000, 12_000_000, protocol),
            clause("faults", 1_200_000, 12_000_000, faults),
            clause("operators", 1_800_000, 18_000_000, operators),
            clause("huge", 1_000, 10_000, huge),
            clause("long_optimality", 30_000, 300_000, long_optimality),
        ],
    })
}
