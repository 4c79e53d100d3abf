//! C27: Newton's method, line search, finite differences.
use fenris::nalgebra::{DMatrix, DVector, DVectorView, DVectorViewMut};
use fenris_optimize::calculus::*;
use fenris_optimize::newton::*;
use pbt::*;
use std::cell::RefCell;
use std::error::Error;

/// F_i(x) = (A x)_i + b_i + s_i phi_i(x_{k_i}) + q_i x_{l_i} x_{m_i}
#[derive(Debug, Clone)]
struct System {
    n: usize,
    a: Vec<Vec<f64>>,
    b: Vec<f64>,
    terms: Vec<(f64, u8, usize)>,
    quad: Vec<(f64, usize, usize)>,
}

fn phi(kind: u8, t: f64) -> (f64, f64) {
    match kind {
        0 => (t * t * t, 3.0 * t * t),
        1 => (t.sin(), t.cos()),
        2 => (t.exp(), t.exp()),
        3 => (t.atan(), 1.0 / (1.0 + t * t)),
        4 => (t.ln(), 1.0 / t),
        _ => (t.abs().sqrt(), 0.5 * t.signum() / t.abs().sqrt()),
    }
}

impl System {
    fn eval(&self, x: &[f64]) -> Vec<f64> {
        (0..self.n)
            .map(|i| {
                let lin: f64 = (0..self.n).map(|j| self.a[i][j] * x[j]).sum();
                let (s, kind, k) = self.terms[i];
                let t = if s != 0.0 { s * phi(kind, x[k]).0 } else { 0.0 };
                let (q, l, m) = self.quad[i];
                lin + self.b[i] + t + q * x[l] * x[m]
            })
            .collect()
    }

    /// A bound of the rounding errors of an evaluation
    fn noise(&self, x: &[f64]) -> f64 {
        let mut sum = 0.0;
        for i in 0..self.n {
            sum += (0..self.n).map(|j| (self.a[i][j] * x[j]).abs()).sum::<f64>() + self.b[i].abs();
            let (s, kind, k) = self.terms[i];
            if s != 0.0 {
                let (v, d) = phi(kind, x[k]);
                sum += s.abs() * (v.abs() + (d * x[k]).abs());
            }
            let (q, l, m) = self.quad[i];
            sum += (q * x[l] * x[m]).abs();
        }
        1e-12 * sum
    }

    fn jacobian(&self, x: &[f64]) -> Vec<Vec<f64>> {
        let mut j = self.a.clone();
        for i in 0..self.n {
            let (s, kind, k) = self.terms[i];
            if s != 0.0 {
                j[i][k] += s * phi(kind, x[k]).1;
            }
            let (q, l, m) = self.quad[i];
            j[i][l] += q * x[m];
            j[i][m] += q * x[l];
        }
        j
    }
}

/// Gaussian elimination with pivoting
fn solve(mut a: Vec<Vec<f64>>, mut b: Vec<f64>) -> Option<Vec<f64>> {
    let n = b.len();
    for k in 0..n {
        let mut p = k;
        for i in k + 1..n {
            if a[i][k].abs() > a[p][k].abs() {
                p = i;
            }
        }
        if a[p][k].abs() < 1e-12 {
            return None;
        }
        a.swap(k, p);
        b.swap(k, p);
        for i in k + 1..n {
            let f = a[i][k] / a[k][k];
            for j in k..n {
                a[i][j] -= f * a[k][j];
            }
            b[i] -= f * b[k];
        }
    }
    for k in (0..n).rev() {
        for j in k + 1..n {
            b[k] -= a[k][j] * b[j];
        }
        b[k] /= a[k][k];
    }
    Some(b)
}

fn gen_linear(c: &mut Case, n: usize) -> Vec<Vec<f64>> {
    let mut a = vec![vec![0.0; n]; n];
    let dense = c.bool();
    for i in 0..n {
        let mut sum = 0.0;
        for j in 0..n {
            if i != j && (dense || c.chance(1, 3)) {
                a[i][j] = c.coord(2.0);
                sum += a[i][j].abs();
            }
        }
        let d = sum + c.f64(0.5, 3.0);
        a[i][i] = if c.bool() { d } else { -d };
    }
    if c.bool() {
        // rows in another order: still regular, but the pivots are elsewhere
        let p = c.permutation(n);
        a = p.iter().map(|i| a[*i].clone()).collect();
    }
    a
}

fn gen_system(c: &mut Case, n: usize) -> System {
    let a = gen_linear(c, n);
    let b = c.vec(n, |c| c.coord(4.0));
    let linear = c.chance(1, 5);
    let terms = c.vec(n, |c| {
        let k = c.int(0, n - 1);
        let kind = c.int(0, 5) as u8;
        let s = if linear || c.chance(1, 3) { 0.0 } else { c.coord(3.0) };
        (s, kind, k)
    });
    let unit = c.value_unit();
    let (a, b, terms): (Vec<Vec<f64>>, Vec<f64>, Vec<(f64, u8, usize)>) = (
        a.iter().map(|r| r.iter().map(|v| unit * v).collect()).collect(),
        b.iter().map(|v| unit * v).collect(),
        terms.iter().map(|t| (unit * t.0, t.1, t.2)).collect(),
    );
    let quad = c.vec(n, |c| {
        let l = c.int(0, n - 1);
        let m = c.int(0, n - 1);
        (if linear || c.chance(1, 2) { 0.0 } else { unit * c.coord(1.0) }, l, m)
    });
    System { n, a, b, terms, quad }
}

#[derive(Debug, Clone)]
struct Solve {
    x: Vec<f64>,
    rhs: Vec<f64>,
    /// The direction -sol
    dir: Vec<f64>,
}

#[derive(Debug, Default)]
struct Log {
    evals: usize,
    solves: Vec<Solve>,
    /// The attempts to solve that failed
    failed: usize,
}

#[derive(Debug)]
struct Run {
    outcome: Result<usize, NewtonError>,
    log: Log,
    x: Vec<f64>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Search {
    Plain,
    No,
    Backtracking,
    /// Takes the given fraction of the step, and fails in the given step
    Custom(f64, usize),
}

struct Custom(f64, usize, usize);

impl<F: VectorFunction<f64>> LineSearch<f64, F> for Custom {
    fn step(&mut self, function: &mut F, mut f: DVectorViewMut<f64>, mut x: DVectorViewMut<f64>, direction: DVectorView<f64>) -> Result<f64, Box<dyn Error>> {
        if self.2 == self.1 {
            return Err(Box::from("the search gave up"));
        }
        self.2 += 1;
        x.axpy(self.0, &direction, 1.0);
        function.eval_into(&mut f, &DVectorView::from(&x));
        Ok(self.0)
    }
}

#[derive(Debug, Clone)]
struct Setup {
    x0: Vec<f64>,
    tol: f64,
    limit: Option<usize>,
    /// The call of the linear solver that fails
    inject: usize,
    /// A factor of the direction given by the linear solver
    factor: f64,
    search: Search,
}

const BUDGET: usize = 300;

fn run(s: &System, u: &Setup) -> Result<Run, Panicked> {
    let log = RefCell::new(Log::default());
    let n = s.n;
    let mut x = DVector::from_vec(u.x0.clone());
    // The contents of these buffers must not matter
    let mut f = DVector::from_element(n, f64::NAN);
    let mut dx = DVector::from_element(n, 123.0);
    let outcome = catch(|| {
        let mut function = VectorFunctionBuilder::with_dimension(n)
            .with_function(|f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>| {
                let mut l = log.borrow_mut();
                l.evals += 1;
                assert!(l.evals < 50 * BUDGET, "too many evaluations");
                let x: Vec<f64> = x.iter().copied().collect();
                for (o, v) in f.iter_mut().zip(s.eval(&x)) {
                    *o = v;
                }
            })
            .with_jacobian_solver(|sol: &mut DVectorViewMut<f64>, x: &DVectorView<f64>, rhs: &DVectorView<f64>| {
                let mut l = log.borrow_mut();
                let x: Vec<f64> = x.iter().copied().collect();
                let rhs: Vec<f64> = rhs.iter().copied().collect();
                let k = l.solves.len();
                if k == u.inject {
                    l.failed += 1;
                    return Err(Box::from("injected"));
                }
                if k == BUDGET {
                    l.failed += 1;
                    return Err(Box::from("budget"));
                }
                match solve(s.jacobian(&x), rhs.clone()) {
                    Some(d) => {
                        let d: Vec<f64> = d.iter().map(|v| v * u.factor).collect();
                        for (o, v) in sol.iter_mut().zip(&d) {
                            *o = *v;
                        }
                        l.solves.push(Solve { x, rhs, dir: d.iter().map(|v| -v).collect() });
                        Ok(())
                    }
                    None => {
                        l.failed += 1;
                        Err(Box::from("singular"))
                    }
                }
            });
        let settings = NewtonSettings { max_iterations: u.limit, tolerance: u.tol };
        match u.search {
            Search::Plain => newton(&mut function, &mut x, &mut f, &mut dx, settings),
            Search::No => newton_line_search(&mut function, &mut x, &mut f, &mut dx, settings, &mut NoLineSearch),
            Search::Backtracking => newton_line_search(&mut function, &mut x, &mut f, &mut dx, settings, &mut BacktrackingLineSearch),
            Search::Custom(fraction, fails) => newton_line_search(&mut function, &mut x, &mut f, &mut dx, settings, &mut Custom(fraction, fails, 0)),
        }
    })?;
    Ok(Run { outcome, log: log.into_inner(), x: x.iter().copied().collect() })
}

fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}

/// x + t d
fn along(x: &[f64], t: f64, d: &[f64]) -> Vec<f64> {
    x.iter().zip(d).map(|(x, d)| x + t * d).collect()
}

fn close_points(a: &[f64], b: &[f64], scale: f64) -> bool {
    a.iter().zip(b).all(|(a, b)| (a - b).abs() <= 1e-12 * scale || a == b || (a.is_nan() && b.is_nan()) || !b.is_finite() || !scale.is_finite())
}

fn size(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |m: f64, x| if x.is_nan() { f64::NAN } else { m.max(x.abs()) })
}

/// Whether a step of length t decreases the residual sufficiently, whatever the rounding
fn enough(s: &System, q: &Solve, t: f64) -> bool {
    let point = along(&q.x, t, &q.dir);
    norm(&s.eval(&point)) + s.noise(&q.x) + s.noise(&point) <= (1.0 - 1e-4 * t).sqrt() * norm(&q.rhs) * (1.0 - 1e-6)
}

fn judge(s: &System, u: &Setup, r: &Run) -> Res {
    let steps = r.log.solves.len();
    let residual = norm(&s.eval(&r.x));
    let converged = residual <= u.tol * (1.0 + 1e-12);
    let surely = residual <= u.tol * (1.0 - 1e-12);
    if let Some(limit) = u.limit {
        ensure!(steps <= limit, "{} steps were taken, at most {} are allowed", steps, limit);
    }
    // The iterates that are known: where the linear system was solved, and the result
    for (k, q) in r.log.solves.iter().enumerate() {
        let f = s.eval(&q.x);
        ensure!(norm(&f) > u.tol * (1.0 - 1e-12) || norm(&f).is_nan(), "step {} starts at {:?} with residual {:e}, which is within the tolerance", k, q.x, norm(&f));
        ensure!(close_points(&q.rhs, &f, size(&f)), "the linear system of step {} is solved for {:?}, the residual is {:?}", k, q.rhs, f);
        if k == 0 {
            ensure!(q.x == u.x0, "the first step is taken at {:?} instead of {:?}", q.x, u.x0);
        }
    }
    let search_failed = matches!(r.outcome, Err(NewtonError::LineSearchError(_)));
    // The accepted steps
    for (k, q) in r.log.solves.iter().enumerate() {
        let to = if k + 1 < steps { &r.log.solves[k + 1].x } else { &r.x };
        if k + 1 == steps && search_failed {
            continue;
        }
        let scale = size(&q.x) + size(&q.dir);
        match u.search {
            Search::Plain | Search::No => {
                ensure!(close_points(to, &along(&q.x, 1.0, &q.dir), scale), "step {} goes from {:?} to {:?}, the full step is {:?}", k, q.x, to, q.dir);
            }
            Search::Custom(t, _) => {
                ensure!(close_points(to, &along(&q.x, t, &q.dir), scale), "step {} goes from {:?} to {:?}, the step of the search is {} * {:?}", k, q.x, to, t, q.dir);
            }
            Search::Backtracking => {
                let big = (0..s.n).max_by(|i, j| q.dir[*i].abs().total_cmp(&q.dir[*j].abs())).unwrap();
                let t = (to[big] - q.x[big]) / q.dir[big];
                // the length of the step as far as it can be seen in the points
                let slack = 1e-12 * (1.0 + scale / q.dir[big].abs());
                ensure!(t > -slack && t <= 1.0 + slack, "step {} has length {}", k, t);
                ensure!(close_points(to, &along(&q.x, t, &q.dir), scale), "step {} goes from {:?} to {:?}, not along {:?}", k, q.x, to, q.dir);
                let (g0, g) = (norm(&q.rhs).powi(2), norm(&s.eval(to)).powi(2));
                ensure!(g <= (1.0 - 1e-4 * (t - slack).max(0.0)) * g0 * (1.0 + 1e-9) + 1e-24 * g0.max(s.noise(to).powi(2)), "step {} of length {} takes the squared residual from {:e} to {:e}", k, t, g0, g);
                if t < 1.0 - slack {
                    let point = along(&q.x, 1.0, &q.dir);
                    let full = norm(&s.eval(&point)).powi(2);
                    ensure!(!enough(s, q, 1.0), "step {} has length {}, but the full step takes the squared residual from {:e} to {:e}", k, t, g0, full);
                }
            }
        }
    }
    match &r.outcome {
        Ok(n) => {
            ensure_eq!(*n, steps, "reported number of iterations");
            ensure!(converged, "success is reported at {:?} with residual {:e} (tolerance {:e})", r.x, residual, u.tol);
        }
        Err(NewtonError::MaximumIterationsReached(n)) => {
            ensure!(u.limit == Some(*n) && *n == steps, "{} iterations are reported for limit {:?} and {} steps", n, u.limit, steps);
            ensure!(!surely, "the limit is reported although the residual {:e} is within the tolerance {:e}", residual, u.tol);
        }
        Err(NewtonError::JacobianError(e)) => {
            ensure_eq!(r.log.failed, 1, "failures of the linear solver");
            ensure!(["injected", "budget", "singular"].contains(&e.to_string().as_str()), "the error of the linear solver is lost: {}", e);
            ensure!(!surely, "an error is reported although the residual {:e} is within the tolerance {:e}", residual, u.tol);
        }
        Err(NewtonError::LineSearchError(e)) => {
            if let Search::Custom(_, k) = u.search {
                if e.to_string() == "the search gave up" {
                    ensure_eq!(steps, k + 1, "steps before the search gave up");
                    return Ok(());
                }
            }
            // Otherwise nothing but the residual can be the reason
            let q = &r.log.solves[steps - 1];
            match u.search {
                Search::Backtracking => {
                    let g0 = norm(&q.rhs).powi(2);
                    let mut t = 1.0;
                    let mut lengths = vec![0.75, 0.5];
                    while t > 1e-5 {
                        lengths.push(t);
                        t *= 0.25;
                    }
                    for t in lengths {
                        let g = norm(&s.eval(&along(&q.x, t, &q.dir))).powi(2);
                        ensure!(!enough(s, q, t), "the line search failed, but a step of length {} takes the squared residual from {:e} to {:e}", t, g0, g);
                    }
                }
                _ => ensure!(residual.is_nan(), "the line search is reported to have failed: {}", e),
            }
        }
    }
    if r.log.failed > 0 {
        ensure!(matches!(r.outcome, Err(NewtonError::JacobianError(_))), "the error of the linear solver is not reported: {:?}", r.outcome);
    }
    Ok(())
}

/// Many small or too large steps, many unknowns
fn huge(c: &mut Case) -> Res {
    let n = if c.bool() { c.int(1, 3) } else { c.size(60).max(1) };
    let s = gen_system(c, n);
    let unit = c.value_unit();
    let steps = c.size(BUDGET - 5);
    let damped = c.bool();
    let u = Setup {
        x0: c.vec(s.n, |c| c.coord(3.0)),
        tol: if c.chance(1, 6) { 0.0 } else { unit * c.magnitude(-9.0, 0.0) },
        limit: if c.chance(1, 3) { None } else { Some(steps) },
        inject: if c.chance(1, 5) { c.size(BUDGET - 1) } else { usize::MAX },
        factor: if damped { c.f64(0.01, 1.95) } else { 1.0 },
        search: match c.int(0, 3) {
            0 => Search::Plain,
            1 => Search::No,
            2 => Search::Backtracking,
            _ => {
                let t = c.f64(0.02, 1.0);
                let k = if c.bool() { usize::MAX } else { c.size(BUDGET - 1) };
                Search::Custom(t, k)
            }
        },
    };
    c.note(|| format!("{:?}\n{:?}", s, u));
    let r = match run(&s, &u) {
        Ok(r) => r,
        Err(p) => {
            ensure!(!p.message.contains("too many evaluations"), "{} evaluations and {} steps: the limits are not respected", 50 * BUDGET, BUDGET);
            fail!("panic: {}", p.message)
        }
    };
    let steps = r.log.solves.len();
    c.note(|| format!("outcome {:?} after {} steps at {:?}", r.outcome, steps, r.x));
    c.nontrivial_if(steps > 20 || (s.n > 20 && steps > 1));
    c.class_if(steps > 100, "more than 100 steps");
    c.class_if(s.n > 20, "more than 20 unknowns");
    judge(&s, &u, &r)
}

fn newton_history(c: &mut Case) -> Res {
    let n = c.int(1, 5);
    let s = gen_system(c, n);
    let unit = c.value_unit();
    let u = Setup {
        x0: c.vec(s.n, |c| c.coord(3.0)),
        tol: if c.chance(1, 12) { 0.0 } else { unit * c.magnitude(-11.0, 1.5) },
        limit: if c.chance(1, 3) { None } else { Some(c.int(0, 12)) },
        inject: if c.chance(1, 5) { c.int(0, 6) } else { usize::MAX },
        factor: if c.chance(3, 4) { 1.0 } else { *c.pick(&[0.5, 1.5, 3.0, -1.0, 10.0, 100.0]) },
        search: match c.int(0, 3) {
            0 => Search::Plain,
            1 => Search::No,
            2 => Search::Backtracking,
            _ => {
                let t = c.f64(0.1, 1.2);
                let k = if c.bool() { usize::MAX } else { c.int(0, 5) };
                Search::Custom(t, k)
            }
        },
    };
    c.note(|| format!("{:?}\n{:?}", s, u));
    let r = match run(&s, &u) {
        Ok(r) => r,
        Err(p) => {
            ensure!(!p.message.contains("too many evaluations"), "{} evaluations and {} steps: the limits are not respected", 50 * BUDGET, BUDGET);
            fail!("panic: {}", p.message)
        }
    };
    let steps = r.log.solves.len();
    c.note(|| format!("outcome {:?} after {} steps at {:?}", r.outcome, steps, r.x));
    c.nontrivial_if(steps > 1);
    match &r.outcome {
        Ok(0) => c.class("converged at once"),
        Ok(_) => c.class("converged"),
        Err(NewtonError::MaximumIterationsReached(_)) => c.class("limit"),
        Err(NewtonError::JacobianError(_)) => c.class("linear solver failed"),
        Err(NewtonError::LineSearchError(_)) => c.class("line search failed"),
    }
    c.class_if(steps > 0 && u.search == Search::Backtracking && r.log.evals > steps + 1, "backtracked");
    c.class_if(norm(&s.eval(&r.x)).is_nan(), "residual is not a number");
    judge(&s, &u, &r)
}

/// Linear problems are solved in one step, a start within the tolerance (equality included) needs none.
fn linear(c: &mut Case) -> Res {
    let n = c.int(1, 7);
    let s = System { n, a: gen_linear(c, n), b: c.vec(n, |c| c.coord(5.0)), terms: vec![(0.0, 0, 0); n], quad: vec![(0.0, 0, 0); n] };
    let exact = c.chance(1, 4);
    let search = *c.pick(&[Search::Plain, Search::No, Search::Backtracking]);
    let mut u = Setup { x0: c.vec(n, |c| c.coord(5.0)), tol: 1e-9, limit: *c.pick(&[None, Some(1), Some(7)]), inject: usize::MAX, factor: 1.0, search };
    if exact {
        // a residual whose norm is exact
        let scale = 2f64.powi(c.sint(-20, 20) as i32);
        let mut s = System { n: 2, a: vec![vec![1.0, 0.0], vec![0.0, 1.0]], b: vec![0.0; 2], terms: vec![(0.0, 0, 0); 2], quad: vec![(0.0, 0, 0); 2] };
        let (p, q, r) = *c.pick(&[(3.0, 4.0, 5.0), (5.0, 12.0, 13.0), (0.0, 1.0, 1.0), (-8.0, 15.0, 17.0)]);
        s.b = vec![p * scale, q * scale];
        u.x0 = vec![0.0, 0.0];
        u.tol = r * scale * if c.bool() { 1.0 } else { 0.999999 };
        u.limit = Some(if u.tol == r * scale { 0 } else { 1 });
        c.nontrivial();
        c.class("residual equal to the tolerance");
        c.note(|| format!("{:?}\n{:?}", s, u));
        let r0 = run(&s, &u).map_err(|p| format!("panic: {}", p.message))?;
        ensure!(matches!(r0.outcome, Ok(k) if k == u.limit.unwrap()), "outcome {:?}, expected {:?}", r0.outcome, u.limit);
        return judge(&s, &u, &r0);
    }
    c.note(|| format!("{:?}\n{:?}", s, u));
    let r = run(&s, &u).map_err(|p| format!("panic: {}", p.message))?;
    let start = norm(&s.eval(&u.x0));
    c.nontrivial_if(n > 1);
    let expected = if start <= u.tol { 0 } else { 1 };
    ensure!(matches!(r.outcome, Ok(k) if k == expected), "a linear problem gives {:?}", r.outcome);
    judge(&s, &u, &r)
}

// ---------------------------------------------------------------------------------------------
// Finite differences
// ---------------------------------------------------------------------------------------------

/// A polynomial of degree at most three, by its monomials
#[derive(Debug, Clone)]
struct Poly(Vec<(f64, Vec<usize>)>);

impl Poly {
    fn eval(&self, x: &[f64]) -> f64 {
        self.0.iter().map(|(k, v)| v.iter().fold(*k, |p, i| p * x[*i])).sum()
    }
    fn abs(&self, x: &[f64], h: f64) -> f64 {
        self.0.iter().map(|(k, v)| v.iter().fold(k.abs(), |p, i| p * (x[*i].abs() + h))).sum()
    }
    fn diff(&self, i: usize) -> Poly {
        let mut r = vec![];
        for (k, v) in &self.0 {
            let e = v.iter().filter(|j| **j == i).count();
            if e > 0 {
                let at = v.iter().position(|j| *j == i).unwrap();
                let mut w = v.clone();
                w.remove(at);
                r.push((k * e as f64, w));
            }
        }
        Poly(r)
    }
}

fn gen_poly(c: &mut Case, n: usize, degree: usize) -> Poly {
    let terms = c.int(0, 4);
    Poly(c.vec(terms, |c| {
        let d = if n == 0 { 0 } else { c.int(0, degree) };
        let k = c.coord(3.0);
        let v = c.vec(d, |c| c.int(0, n - 1));
        (k, v)
    }))
}

struct PolyFn(Vec<Poly>);

impl VectorFunction<f64> for PolyFn {
    fn dimension(&self) -> usize {
        self.0.len()
    }
    fn eval_into(&mut self, f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>) {
        let x: Vec<f64> = x.iter().copied().collect();
        assert_eq!(f.len(), self.0.len());
        for (o, p) in f.iter_mut().zip(&self.0) {
            *o = p.eval(&x);
        }
    }
}

fn differences(c: &mut Case) -> Res {
    let (m, n) = (c.int(0, 5), c.int(0, 6));
    differences_of(c, m, n)
}

fn wide(c: &mut Case) -> Res {
    let (m, n) = (c.size(60), c.size(200));
    differences_of(c, m, n)
}

fn differences_of(c: &mut Case, m: usize, n: usize) -> Res {
    let degree = c.int(1, 3);
    let f = c.vec(m, |c| gen_poly(c, n, degree));
    let x = c.vec(n, |c| c.coord(4.0));
    let h = if c.bool() { 2f64.powi(c.sint(-20, 1) as i32) } else { c.magnitude(-6.0, 0.0) };
    c.note(|| format!("f = {:?}\nx = {:?}, h = {:e}", f, x, h));
    c.nontrivial_if(m > 0 && n > 1 && f.iter().any(|p| p.0.iter().any(|t| t.1.len() > 1)));
    c.class_if(m != n, "rectangular");
    c.class_if(degree == 3, "cubic");
    let way = c.int(0, 4);
    let pad = c.int(0, 3);
    let bits = |v: &[f64]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
    let view = |x: &DVectorView<f64>| x.iter().copied().collect::<Vec<_>>();
    let call = |p: &Poly, x: DVectorView<f64>| p.eval(&view(&x));
    let got: DMatrix<f64> = catch(|| -> Result<DMatrix<f64>, Stop> {
        let mut xm = DVector::from_vec(x.clone());
        let j = match way {
            0 => approximate_jacobian(PolyFn(f.clone()), &xm, &h),
            1 => approximate_jacobian_fd(
                m,
                |x, mut o| {
                    for (o, p) in o.iter_mut().zip(&f) {
                        *o = call(p, x)
                    }
                },
                &mut xm,
                h,
            ),
            2 => {
                // Into a part of a larger matrix that has contents
                let mut big = DMatrix::from_element(m + 2 * pad, n + 2 * pad, 7.0);
                approximate_jacobian_fd_into(
                    big.view_mut((pad, pad), (m, n)),
                    |x, mut o| {
                        for (o, p) in o.iter_mut().zip(&f) {
                            *o = call(p, x)
                        }
                    },
                    &mut xm,
                    h,
                );
                for r in 0..m + 2 * pad {
                    for k in 0..n + 2 * pad {
                        let inside = r >= pad && r < pad + m && k >= pad && k < pad + n;
                        ensure!(inside || big[(r, k)] == 7.0, "an entry outside of the output was changed");
                    }
                }
                big.view((pad, pad), (m, n)).clone_owned()
            }
            _ => {
                let mut j = DMatrix::zeros(m, n);
                for (i, p) in f.iter().enumerate() {
                    let g = if way == 3 {
                        approximate_gradient_fd(|x| call(p, x), &mut xm, h)
                    } else {
                        let mut g = DVector::from_element(n, f64::NAN);
                        approximate_gradient_fd_into(DVectorViewMut::from(&mut g), |x| call(p, x), &mut xm, h);
                        g
                    };
                    ensure_eq!(g.len(), n, "length of the gradient");
                    for k in 0..n {
                        j[(i, k)] = g[k];
                    }
                }
                j
            }
        };
        ensure!(bits(xm.as_slice()) == bits(&x), "the evaluation point {:?} was changed to {:?}", x, xm);
        Ok(j)
    })
    .map_err(|p| format!("panic: {}", p.message))??;
    ensure_eq!(got.shape(), (m, n), "shape");
    for i in 0..m {
        let round = f[i].abs(&x, h) * 1e-15 * (4.0 + f[i].0.len() as f64) / h;
        for k in 0..n {
            let d1 = f[i].diff(k);
            let (want, third) = (d1.eval(&x), d1.diff(k).diff(k).eval(&x));
            // x + h and x - h are rounded: the distance of the points is not 2h
            let point = d1.abs(&x, h) * 2e-16 * (x[k].abs() + h) / h;
            let bound = h * h / 6.0 * third.abs() * 1.000001 + 2.0 * round + 4.0 * point + 1e-14 * want.abs();
            ensure!((got[(i, k)] - want).abs() <= bound, "derivative {} of component {} is {}, expected {} up to {:e} (h = {:e})", k, i, got[(i, k)], want, bound, h);
        }
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C27",
        rule: "runs of more than one step (newton), more than one unknown or a residual equal to the tolerance (linear), functions with a monomial of degree at least two in more than one variable (differences, wide), more than 20 steps or several steps with more than 20 unknowns (huge)",
        assumptions: &["functions are deterministic", "the backtracking search is judged by the Armijo condition with c = 1e-4, as documented in its code"],
        clauses: vec![
            clause("newton", 3_000_000, 60_000_000, newton_history),
            clause("linear", 4_000_000, 40_000_000, linear),
            clause("differences", 4_000_000, 40_000_000, differences),
            clause("huge", 600_000, 12_000_000, huge),
            clause("wide", 120_000, 2_400_000, wide),
        ],
    })
}
