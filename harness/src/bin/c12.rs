//! C12: local assembly of elliptic operators.
use fenris::allocators::{BiDimAllocator, TriDimAllocator};
use fenris::assembly::local::*;
use fenris::assembly::operators::*;
use fenris::element::VolumetricFiniteElement;
use fenris::nalgebra::{DMatrix, DMatrixViewMut, DVector, DVectorView, DVectorViewMut, DefaultAllocator, DimName, Dyn, MatrixViewMut, OMatrix, OPoint, OVector, U1, U2, U3};
use fenris_nested_vec::NestedVec;
use fenris::space::{ElementInSpace, VolumetricFiniteElementSpace};
use fenris::{SmallDim, Symmetry};
use fenris_solid::materials::*;
use fenris_solid::MaterialEllipticOperator;
use pbt::elems::*;
use pbt::meshes::*;
use pbt::spaces::*;
use pbt::*;
use std::marker::PhantomData;

/// energy 1/2 G:A:G + c/4 (G:G)^2; `A` and `c` given per point. Not symmetric: only the operator is defined by A
struct TestOp<S> {
    symmetric: bool,
    s: PhantomData<S>,
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Params {
    a: Vec<f64>,
    c: f64,
}

impl<D: SmallDim, S: SmallDim> Operator<f64, D> for TestOp<S> {
    type SolutionDim = S;
    type Parameters = Params;
}

fn flat<D: DimName, S: DimName>(g: &OMatrix<f64, D, S>) -> Vec<f64>
where
    DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D, S>,
{
    (0..D::dim()).flat_map(|k| (0..S::dim()).map(move |i| g[(k, i)])).collect()
}

impl<D: SmallDim, S: SmallDim> EllipticEnergy<f64, D> for TestOp<S>
where
    DefaultAllocator: BiDimAllocator<f64, D, S>,
{
    fn compute_energy(&self, g: &OMatrix<f64, D, S>, p: &Params) -> f64 {
        let v = flat(g);
        let n = v.len();
        let sq: f64 = v.iter().map(|x| x * x).sum();
        let mut e = 0.25 * p.c * sq * sq;
        for i in 0..n {
            for j in 0..n {
                e += 0.5 * v[i] * p.a[i * n + j] * v[j];
            }
        }
        e
    }
}

impl<D: SmallDim, S: SmallDim> EllipticOperator<f64, D> for TestOp<S>
where
    DefaultAllocator: BiDimAllocator<f64, D, S>,
{
    fn compute_elliptic_operator(&self, g: &OMatrix<f64, D, S>, p: &Params) -> OMatrix<f64, D, S> {
        let v = flat(g);
        let n = v.len();
        let sq: f64 = v.iter().map(|x| x * x).sum();
        OMatrix::<f64, D, S>::from_fn(|k, i| {
            let r = k * S::dim() + i;
            p.c * sq * v[r] + (0..n).map(|j| p.a[r * n + j] * v[j]).sum::<f64>()
        })
    }
}

impl<D: SmallDim, S: SmallDim> EllipticContraction<f64, D> for TestOp<S>
where
    DefaultAllocator: BiDimAllocator<f64, D, S>,
{
    fn contract(&self, g: &OMatrix<f64, D, S>, a: &OVector<f64, D>, b: &OVector<f64, D>, p: &Params) -> OMatrix<f64, S, S> {
        let (d, s) = (D::dim(), S::dim());
        let n = d * s;
        let sq: f64 = g.iter().map(|x| x * x).sum();
        OMatrix::<f64, S, S>::from_fn(|i, j| {
            let mut r = 0.0;
            for k in 0..d {
                for m in 0..d {
                    let delta = if k == m && i == j { 1.0 } else { 0.0 };
                    let dg = p.a[(k * s + i) * n + m * s + j] + p.c * (2.0 * g[(k, i)] * g[(m, j)] + sq * delta);
                    r += a[k] * dg * b[m];
                }
            }
            r
        })
    }
    fn symmetry(&self) -> Symmetry {
        if self.symmetric {
            Symmetry::Symmetric
        } else {
            Symmetry::NonSymmetric
        }
    }
}

/// Quadrature points (reference coordinates) and weights of every element
type Rules = Vec<(Vec<Vec<f64>>, Vec<f64>)>;

fn gen_rules(c: &mut Case, elems: &[Elem]) -> Rules {
    elems
        .iter()
        .map(|e| {
            let pts = e.kind.ref_points(c, 4);
            let w = c.vec(pts.len(), |c| if c.chance(1, 6) { 0.0 } else { c.f64(-0.3, 1.0) });
            (pts, w)
        })
        .collect()
}

/// Magnitudes of the largest derivatives of the energy density: how values of the density, its first and its second
/// derivative scale for gradients up to the given size
type Scale<P> = fn(&P, f64) -> (f64, f64, f64);

fn test_scale(p: &Params, g: f64) -> (f64, f64, f64) {
    let a: f64 = p.a.iter().map(|x| x.abs()).sum();
    (a * g * g + p.c.abs() * g.powi(4), a * g + p.c.abs() * g.powi(3), a + 3.0 * p.c.abs() * g * g)
}

fn no_params(_: &(), g: f64) -> (f64, f64, f64) {
    (g * g, g, 1.0)
}

fn lame_scale(p: &LameParameters<f64>, g: f64) -> (f64, f64, f64) {
    let m = 30.0 * (p.mu.abs() + p.lambda.abs());
    let f = 1.0 + g * g;
    (m * g * g.max(1e-3) * f, m * g.max(1e-3) * f, m * f)
}

fn nested<T: Clone>(v: &[Vec<T>]) -> NestedVec<T> {
    NestedVec::from(&v.to_vec())
}

struct Fixture<'a, D: SmallDim, P>
where
    DefaultAllocator: BiDimAllocator<f64, D, D>,
{
    elems: &'a [Elem],
    rules: &'a Rules,
    params: &'a [Vec<P>],
    general: GeneralQuadratureTable<f64, D, P>,
    compact: CompactQuadratureTable<f64, D, P>,
}

impl<'a, D: SmallDim, P: Clone> Fixture<'a, D, P>
where
    DefaultAllocator: BiDimAllocator<f64, D, D>,
{
    fn new(c: &mut Case, elems: &'a [Elem], rules: &'a Rules, params: &'a [Vec<P>]) -> Self {
        let pts: Vec<Vec<OPoint<f64, D>>> = rules.iter().map(|r| r.0.iter().map(|p| opoint(p)).collect()).collect();
        let w: Vec<Vec<f64>> = rules.iter().map(|r| r.1.clone()).collect();
        let general = GeneralQuadratureTable::from_points_weights_and_data(nested(&pts), nested(&w), nested(params));
        // the same rules in another order
        let order = c.permutation(elems.len());
        let mut map = vec![0; elems.len()];
        for (k, e) in order.iter().enumerate() {
            map[*e] = k;
        }
        fn sel<T: Clone>(v: &[Vec<T>], o: &[usize]) -> NestedVec<T> {
            nested(&o.iter().map(|i| v[*i].clone()).collect::<Vec<_>>())
        }
        let compact = CompactQuadratureTable::from_quadrature_rules_and_map(sel(&pts, &order), sel(&w, &order), sel(params, &order), map);
        Fixture { elems, rules, params, general, compact }
    }
}

/// One element: u as s x n matrix
fn local_u(e: &Elem, u: &DVector<f64>, s: usize) -> DMatrix<f64> {
    DMatrix::from_fn(s, e.nodes.len(), |i, k| u[s * e.nodes[k] + i])
}

/// Gradient of u at a point (d x s), through independent gradients
fn u_grad(g: &DMatrix<f64>, u: &DMatrix<f64>) -> DMatrix<f64> {
    g * u.transpose()
}

fn fixed<D: DimName, S: DimName>(m: &DMatrix<f64>) -> OMatrix<f64, D, S>
where
    DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D, S>,
{
    OMatrix::<f64, D, S>::from_fn_generic(D::name(), S::name(), |i, j| m[(i, j)])
}

struct Reference {
    energy: f64,
    vector: DVector<f64>,
    matrix: DMatrix<f64>,
    /// Tolerances
    tol: (f64, f64, f64),
}

/// Written out quadrature sums
fn reference<D, S, Op>(op: &Op, fx: &Fixture<D, Op::Parameters>, i: usize, u: &DVector<f64>, scale: Scale<Op::Parameters>, energy: bool) -> Reference
where
    D: SmallDim,
    S: SmallDim,
    Op: EllipticEnergy<f64, D> + EllipticOperator<f64, D> + EllipticContraction<f64, D> + Operator<f64, D, SolutionDim = S>,
    DefaultAllocator: TriDimAllocator<f64, S, D, D> + BiDimAllocator<f64, D, S> + BiDimAllocator<f64, D, D>,
{
    let (d, s) = (D::dim(), S::dim());
    let e = &fx.elems[i];
    let n = e.nodes.len();
    let ul = local_u(e, u, s);
    let mut r = Reference { energy: 0.0, vector: DVector::zeros(s * n), matrix: DMatrix::zeros(s * n, s * n), tol: (0.0, 0.0, 0.0) };
    for q in 0..fx.rules[i].1.len() {
        let (xi, w, p) = (&fx.rules[i].0[q], fx.rules[i].1[q], &fx.params[i][q]);
        let phi = e.physical_gradients(xi);
        let grad = u_grad(&phi, &ul);
        // size of the terms the gradient is the sum of
        let gabs: f64 = (0..n).map(|k| phi.column(k).norm() * ul.column(k).norm()).sum();
        let pmax = (0..n).fold(0.0, |a: f64, k| a.max(phi.column(k).norm()));
        let wd = w * e.det(xi).abs();
        let grad: OMatrix<f64, D, S> = fixed(&grad);
        if energy {
            r.energy += wd * op.compute_energy(&grad, p);
        }
        let g = op.compute_elliptic_operator(&grad, p);
        let sc = scale(p, gabs);
        r.tol.0 += 1e-11 * wd.abs() * sc.0;
        r.tol.1 += 1e-11 * wd.abs() * sc.1 * pmax;
        r.tol.2 += 1e-11 * wd.abs() * sc.2 * pmax * pmax;
        for a in 0..n {
            for j in 0..s {
                for k in 0..d {
                    r.vector[s * a + j] += wd * g[(k, j)] * phi[(k, a)];
                }
            }
            for b in 0..n {
                let va: OVector<f64, D> = fixed(&DMatrix::from_fn(d, 1, |k, _| phi[(k, a)]));
                let vb: OVector<f64, D> = fixed(&DMatrix::from_fn(d, 1, |k, _| phi[(k, b)]));
                let m = op.contract(&grad, &va, &vb, p);
                for x in 0..s {
                    for y in 0..s {
                        r.matrix[(s * a + x, s * b + y)] += wd * m[(x, y)];
                    }
                }
            }
        }
    }
    r
}

fn max(m: &DMatrix<f64>) -> f64 {
    m.iter().fold(0.0, |a, x| a.max(x.abs()))
}

/// Everything the library computes for one element
#[derive(PartialEq, Debug)]
struct Local {
    energy: Option<f64>,
    vector: DVector<f64>,
    matrix: DMatrix<f64>,
}

fn assemble<D, S, Op, Space, Q>(op: &Op, space: &Space, table: &Q, i: usize, nodes: usize, u: &DVector<f64>, energy: bool, order: usize) -> eyre::Result<Local>
where
    D: SmallDim,
    S: SmallDim,
    Op: EllipticEnergy<f64, D> + EllipticOperator<f64, D> + EllipticContraction<f64, D> + Operator<f64, D, SolutionDim = S>,
    Space: VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D>,
    Q: QuadratureTable<f64, D, Data = Op::Parameters>,
    DefaultAllocator: TriDimAllocator<f64, S, D, D> + BiDimAllocator<f64, D, S> + BiDimAllocator<f64, D, D>,
{
    let asm = ElementEllipticAssemblerBuilder::new().with_finite_element_space(space).with_operator(op).with_quadrature_table(table).with_u(u).build();
    let n = S::dim() * nodes;
    // whatever is in the output before must not matter
    let mut vector = DVector::from_element(n, 1e5);
    let mut matrix = DMatrix::from_element(n, n, -1e5);
    let mut value = None;
    // in any order
    for k in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order] {
        match k {
            0 => asm.assemble_element_matrix_into(i, DMatrixViewMut::from(&mut matrix))?,
            1 => asm.assemble_element_vector_into(i, DVectorViewMut::from(&mut vector))?,
            _ => value = if energy { Some(asm.assemble_element_scalar(i)?) } else { None },
        }
    }
    Ok(Local { energy: value, vector, matrix })
}

/// The free functions on elements
fn low_level<D, S, Op, E>(op: &Op, element: &E, fx: &Fixture<D, Op::Parameters>, i: usize, u: &DVector<f64>, energy: bool) -> eyre::Result<Local>
where
    D: SmallDim,
    S: SmallDim,
    Op: EllipticEnergy<f64, D> + EllipticOperator<f64, D> + EllipticContraction<f64, D> + Operator<f64, D, SolutionDim = S>,
    E: VolumetricFiniteElement<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: TriDimAllocator<f64, S, D, D> + BiDimAllocator<f64, D, S> + BiDimAllocator<f64, D, D>,
{
    let e = &fx.elems[i];
    let k = e.nodes.len();
    let n = S::dim() * k;
    let ul = local_u(e, u, S::dim());
    let ul = DVector::from_column_slice(ul.as_slice());
    let points: Vec<OPoint<f64, D>> = fx.rules[i].0.iter().map(|p| opoint(p)).collect();
    let w = &fx.rules[i].1;
    let data = &fx.params[i];
    let mut buffer = OMatrix::<f64, D, Dyn>::from_element_generic(D::name(), Dyn(k), 3.0);
    let mut vector = DVector::from_element(n, 1e5);
    let mut matrix = DMatrix::from_element(n, n, -1e5);
    assemble_element_elliptic_matrix(DMatrixViewMut::from(&mut matrix), element, op, DVectorView::from(&ul), w, &points, data, MatrixViewMut::from(&mut buffer))?;
    assemble_element_elliptic_vector(DVectorViewMut::from(&mut vector), element, op, DVectorView::from(&ul), w, &points, data, MatrixViewMut::from(&mut buffer))?;
    let energy = if energy { Some(compute_element_elliptic_energy(element, op, DVectorView::from(&ul), w, &points, data, MatrixViewMut::from(&mut buffer))?) } else { None };
    Ok(Local { energy, vector, matrix })
}

fn agree(label: &str, got: &Local, r: &Reference, energy: bool, symmetric: bool) -> Res {
    if energy {
        let e = got.energy.unwrap();
        ensure!((e - r.energy).abs() <= r.tol.0, "{}: energy is {}, quadrature sum is {}", label, e, r.energy);
    }
    let dv = &got.vector - &r.vector;
    ensure!(dv.amax() <= r.tol.1, "{}: vector is {:?}, quadrature sum is {:?}", label, got.vector.as_slice(), r.vector.as_slice());
    let dm = &got.matrix - &r.matrix;
    ensure!(max(&dm) <= r.tol.2, "{}: matrix is {:?} (column by column), quadrature sum is {:?}", label, got.matrix.as_slice(), r.matrix.as_slice());
    ensure!(got.matrix.iter().all(|x| x.is_finite()), "{}: matrix is not finite", label);
    if symmetric {
        ensure!(got.matrix == got.matrix.transpose(), "{}: the matrix is not exactly symmetric: {:?}", label, got.matrix);
    }
    Ok(())
}

struct Opts {
    energy: bool,
    symmetric: bool,
    /// step of differences, relative to the size of the gradient
    h: f64,
    tol: f64,
}

fn check<D, S, Op, Space>(c: &mut Case, op: &Op, space: &Space, elems: &[Elem], rules: &Rules, params: &[Vec<Op::Parameters>], u: &DVector<f64>, scale: Scale<Op::Parameters>, o: &Opts) -> Res
where
    D: SmallDim,
    S: SmallDim,
    Op: EllipticEnergy<f64, D> + EllipticOperator<f64, D> + EllipticContraction<f64, D> + Operator<f64, D, SolutionDim = S>,
    Space: VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: TriDimAllocator<f64, S, D, D> + BiDimAllocator<f64, D, S> + BiDimAllocator<f64, D, D>,
{
    let s = S::dim();
    let fx: Fixture<D, Op::Parameters> = Fixture::new(c, elems, rules, params);
    c.class(if o.symmetric { "symmetric operator" } else { "non-symmetric operator" });
    let visits = elems.len() + c.int(0, 3);
    for _ in 0..visits {
        if elems.is_empty() {
            break;
        }
        let i = c.int(0, elems.len() - 1);
        let e = &elems[i];
        let nodes = e.nodes.len();
        let label = format!("element {} ({:?}, {} quadrature points)", i, e.kind, rules[i].1.len());
        let use_compact = c.bool();
        let order = c.int(0, 5);
        let run = |u: &DVector<f64>| {
            if use_compact {
                assemble::<D, S, Op, Space, _>(op, space, &fx.compact, i, nodes, u, o.energy, order)
            } else {
                assemble::<D, S, Op, Space, _>(op, space, &fx.general, i, nodes, u, o.energy, order)
            }
        };
        let got = run(u).map_err(|e| format!("{}: {}", label, e))?;
        let r = reference::<D, S, Op>(op, &fx, i, u, scale, o.energy);
        c.nontrivial_if(got.vector.amax() > 1e3 * r.tol.1 && got.vector.amax() > 0.0);
        agree(&label, &got, &r, o.energy, o.symmetric)?;
        let element = ElementInSpace::from_space_and_element_index(space, i);
        let low = low_level::<D, S, Op, _>(op, &element, &fx, i, u, o.energy).map_err(|e| format!("{}: {}", label, e))?;
        agree(&format!("{}, free function", label), &low, &r, o.energy, o.symmetric)?;

        // derivatives along a random direction
        if rules[i].1.is_empty() {
            continue;
        }
        let dir = DVector::from_vec(c.values(u.len(), 1.0));
        let (mut gmax, mut umax): (f64, f64) = (0.0, 0.0);
        let (mut sc1, mut sc2) = (0.0, 0.0);
        let sizes: Vec<(f64, f64, f64, f64)> = (0..rules[i].1.len())
            .map(|q| {
                let phi = e.physical_gradients(&rules[i].0[q]);
                let pmax = (0..nodes).fold(0.0, |a: f64, k| a.max(phi.column(k).norm()));
                let ga = |v: &DVector<f64>| {
                    let l = local_u(e, v, s);
                    (0..nodes).map(|k| phi.column(k).norm() * l.column(k).norm()).sum::<f64>()
                };
                (pmax, ga(u), ga(&dir), rules[i].1[q] * e.det(&rules[i].0[q]).abs())
            })
            .collect();
        for z in &sizes {
            gmax = gmax.max(z.2);
            umax = umax.max(z.1);
        }
        if gmax == 0.0 {
            continue;
        }
        let h = o.h / gmax;
        for (q, z) in sizes.iter().enumerate() {
            let sc = scale(&params[i][q], umax + 2.0 * o.h);
            sc1 += z.3.abs() * (sc.0 + sc.1 + sc.2) * gmax;
            sc2 += z.3.abs() * (sc.1 + sc.2) * gmax * z.0;
        }
        let at = |t: f64| run(&(u + &dir * (t * h)));
        let p: Vec<Local> = [-2.0, -1.0, 1.0, 2.0].iter().map(|t| at(*t)).collect::<eyre::Result<_>>().map_err(|e| format!("{}: {}", label, e))?;
        let local_dir = local_u(e, &dir, s);
        let local_dir = DVector::from_column_slice(local_dir.as_slice());
        if o.energy {
            let en = |k: usize| p[k].energy.unwrap();
            let fd = (en(0) - 8.0 * en(1) + 8.0 * en(2) - en(3)) / (12.0 * h);
            let ex = got.vector.dot(&local_dir);
            ensure!((fd - ex).abs() <= o.tol * sc1, "{}: the element energy changes by {} along a direction, the element vector gives {} (tolerance {})", label, fd, ex, o.tol * sc1);
        }
        let fd = (&p[0].vector - &p[1].vector * 8.0 + &p[2].vector * 8.0 - &p[3].vector) / (12.0 * h);
        let ex = &got.matrix * &local_dir;
        ensure!((&fd - &ex).amax() <= o.tol * sc2, "{}: the element vector changes by {:?} along a direction, the element matrix gives {:?} (tolerance {})", label, fd.as_slice(), ex.as_slice(), o.tol * sc2);
    }
    Ok(())
}

/// constant states: no energy, no force
fn constant<D, S, Op, Space>(c: &mut Case, op: &Op, space: &Space, elems: &[Elem], rules: &Rules, params: &[Vec<Op::Parameters>], num_nodes: usize, scale: Scale<Op::Parameters>, energy: bool) -> Res
where
    D: SmallDim,
    S: SmallDim,
    Op: EllipticEnergy<f64, D> + EllipticOperator<f64, D> + EllipticContraction<f64, D> + Operator<f64, D, SolutionDim = S>,
    Space: VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: TriDimAllocator<f64, S, D, D> + BiDimAllocator<f64, D, S> + BiDimAllocator<f64, D, D>,
{
    let s = S::dim();
    let value = c.vec(s, |c| c.f64(-2.0, 2.0));
    let u = DVector::from_fn(s * num_nodes, |k, _| value[k % s]);
    let fx: Fixture<D, Op::Parameters> = Fixture::new(c, elems, rules, params);
    for i in 0..elems.len() {
        let got = assemble::<D, S, Op, Space, _>(op, space, &fx.general, i, elems[i].nodes.len(), &u, energy, 0).map_err(|e| format!("{}", e))?;
        let (mut t0, mut t1) = (0.0, 0.0);
        for q in 0..rules[i].1.len() {
            let phi = elems[i].physical_gradients(&rules[i].0[q]);
            let pmax = (0..phi.ncols()).fold(0.0, |a: f64, k| a.max(phi.column(k).norm()));
            // gradients are zero up to cancellation
            let g = 1e-12 * 2.0 * pmax * phi.ncols() as f64;
            let wd = rules[i].1[q].abs() * elems[i].det(&rules[i].0[q]).abs();
            let sc = scale(&params[i][q], g.max(1e-3));
            t0 += wd * sc.2 * (g * g).max(1e-13 * g);
            t1 += wd * sc.2 * g * pmax;
        }
        ensure!(got.vector.amax() <= t1, "element {} ({:?}): a constant state causes forces {:?}", i, elems[i].kind, got.vector.as_slice());
        if energy {
            let e = got.energy.unwrap();
            ensure!(e.abs() <= t0.max(1e-14 * t1), "element {} ({:?}): a constant state has energy {}", i, elems[i].kind, e);
        }
        if !rules[i].1.is_empty() {
            c.nontrivial();
        }
    }
    Ok(())
}

fn test_params(c: &mut Case, rules: &Rules, ds: usize, symmetric: bool) -> Vec<Vec<Params>> {
    rules
        .iter()
        .map(|r| {
            c.vec(r.1.len(), |c| {
                let mut a = c.vec(ds * ds, |c| c.f64(-1.0, 1.0));
                if symmetric {
                    for i in 0..ds {
                        for j in 0..i {
                            a[i * ds + j] = a[j * ds + i];
                        }
                    }
                }
                let k = if c.bool() { 0.0 } else { c.f64(-1.0, 1.0) };
                Params { a, c: k }
            })
        })
        .collect()
}

fn lame(c: &mut Case, rules: &Rules) -> Vec<Vec<LameParameters<f64>>> {
    let stiff = c.chance(1, 6);
    rules
        .iter()
        .map(|r| {
            c.vec(r.1.len(), |c| {
                let m = if stiff { c.magnitude(-12.0, 12.0) } else { c.magnitude(-1.0, 2.0) };
                LameParameters { mu: m * c.f64(0.1, 1.0), lambda: m * c.f64(0.0, 2.0) }
            })
        })
        .collect()
}

/// Degrees of freedom whose gradients do not exceed `limit` at the quadrature points (in any direction)
fn gen_u(c: &mut Case, elems: &[Elem], rules: &Rules, num_nodes: usize, s: usize, limit: f64) -> DVector<f64> {
    let mut u = DVector::from_vec(c.values(num_nodes * s, 1.0));
    let mut g: f64 = 0.0;
    for (e, r) in elems.iter().zip(rules) {
        let ul = local_u(e, &u, s);
        for xi in &r.0 {
            // values that are (almost) constant are not blown up
            let phi = e.physical_gradients(xi);
            let size: f64 = (0..e.nodes.len()).map(|k| phi.column(k).norm() * ul.column(k).norm()).sum();
            g = g.max(u_grad(&phi, &ul).norm()).max(1e-3 * size);
        }
    }
    if g > 0.0 {
        let size = c.f64(0.0, limit);
        u *= size / g;
    }
    c.note(|| format!("u = {:?}", u.as_slice()));
    u
}

/// Which operator, which of the two checks
fn operators<D, Space>(c: &mut Case, space: &Space, elems: &[Elem], num_nodes: usize, only_constant: bool) -> Res
where
    D: SmallDim,
    Space: VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: TriDimAllocator<f64, D, D, D>
        + TriDimAllocator<f64, U1, D, D>
        + TriDimAllocator<f64, U2, D, D>
        + TriDimAllocator<f64, U3, D, D>
        + BiDimAllocator<f64, D, D>
        + BiDimAllocator<f64, D, U1>
        + BiDimAllocator<f64, D, U2>
        + BiDimAllocator<f64, D, U3>,
    NeoHookeanMaterial: fenris_solid::HyperelasticMaterial<f64, D, Parameters = LameParameters<f64>>,
{
    let rules = gen_rules(c, elems);
    c.note(|| {
        elems
            .iter()
            .zip(&rules)
            .enumerate()
            .map(|(i, (e, r))| format!("element {}: {:?} nodes {:?} corners {:?}, quadrature points {:?} weights {:?}", i, e.kind, e.nodes, e.corners, r.0, r.1))
            .collect::<Vec<_>>()
            .join("\n    ")
    });
    let d = D::dim();
    match c.int(0, 4) {
        0 => {
            c.class("Laplace");
            let p: Vec<Vec<()>> = rules.iter().map(|r| vec![(); r.1.len()]).collect();
            if only_constant {
                return constant::<D, U1, _, _>(c, &LaplaceOperator, space, elems, &rules, &p, num_nodes, no_params, true);
            }
            let u = gen_u(c, elems, &rules, num_nodes, 1, 2.0);
            check::<D, U1, _, _>(c, &LaplaceOperator, space, elems, &rules, &p, &u, no_params, &Opts { energy: true, symmetric: true, h: 0.5, tol: 1e-9 })
        }
        1 => {
            macro_rules! with {
                ($m:expr, $limit:expr) => {{
                    let m = $m;
                    let op = MaterialEllipticOperator::new(&m);
                    let p = lame(c, &rules);
                    c.note(|| format!("Lame parameters {:?}", p));
                    if only_constant {
                        return constant::<D, D, _, _>(c, &op, space, elems, &rules, &p, num_nodes, lame_scale, true);
                    }
                    let u = gen_u(c, elems, &rules, num_nodes, d, $limit);
                    check::<D, D, _, _>(c, &op, space, elems, &rules, &p, &u, lame_scale, &Opts { energy: true, symmetric: true, h: 1e-2, tol: 1e-6 })
                }};
            }
            match c.int(0, 2) {
                0 => {
                    c.class("linear elastic");
                    with!(LinearElasticMaterial, 2.0)
                }
                1 => {
                    c.class("St. Venant-Kirchhoff");
                    with!(StVKMaterial, 1.0)
                }
                _ => {
                    c.class("Neo-Hookean");
                    with!(NeoHookeanMaterial, 0.3)
                }
            }
        }
        _ => {
            c.class("generic operator");
            let symmetric = c.bool();
            macro_rules! with {
                ($S:ty) => {{
                    let op = TestOp::<$S> { symmetric, s: PhantomData };
                    let s = <$S>::dim();
                    let p = test_params(c, &rules, d * s, symmetric);
                    c.note(|| format!("parameters {:?}", p));
                    if only_constant {
                        return constant::<D, $S, _, _>(c, &op, space, elems, &rules, &p, num_nodes, test_scale, symmetric);
                    }
                    let u = gen_u(c, elems, &rules, num_nodes, s, 2.0);
                    check::<D, $S, _, _>(c, &op, space, elems, &rules, &p, &u, test_scale, &Opts { energy: symmetric, symmetric, h: 0.5, tol: 1e-9 })
                }};
            }
            match c.int(1, 3) {
                1 => with!(U1),
                2 => with!(U2),
                _ => with!(U3),
            }
        }
    }
}

fn mixed(c: &mut Case, only_constant: bool) -> Res {
    let d = *c.pick(&[1, 2, 3]);
    let (elems, n) = gen_elems(c, d, if d == 3 { 2 } else { 3 }, 5.0, 0.2, false);
    // more than one node can have the same index only across elements
    let kinds: Vec<Kind> = elems.iter().map(|e| e.kind).collect();
    c.class_if(kinds.windows(2).any(|w| w[0] != w[1]), "several element types");
    match d {
        1 => {
            let space = MixedSpace::<U1>::new(elems, n);
            operators::<U1, _>(c, &space, &space.elems, n, only_constant)
        }
        2 => {
            let space = MixedSpace::<U2>::new(elems, n);
            operators::<U2, _>(c, &space, &space.elems, n, only_constant)
        }
        _ => {
            let space = MixedSpace::<U3>::new(elems, n);
            operators::<U3, _>(c, &space, &space.elems, n, only_constant)
        }
    }
}

fn kernels(c: &mut Case) -> Res {
    mixed(c, false)
}

fn rigid(c: &mut Case) -> Res {
    mixed(c, true)
}

/// The same on finite element meshes of the library
fn meshes(c: &mut Case) -> Res {
    let kind = *c.pick(&VOLUME);
    let g = gen_mesh(c, kind, &MeshOpts { max_cells: if kind.rdim() == 3 { 2 } else { 4 }, empty: true, ..Default::default() });
    // a few elements only
    let elems: Vec<Elem> = (0..g.cells.len().min(3)).map(|i| Elem::new(kind, g.corners(i), g.cells[i].clone())).collect();
    let sub = GMesh { kind, verts: g.verts.clone(), cells: g.cells[..elems.len()].to_vec() };
    let n = sub.verts.len();
    macro_rules! go {
        ($D:ty, $($k:ident $C:ty),*) => {
            match kind {
                $(Kind::$k => operators::<$D, _>(c, &sub.to_mesh::<$C>(), &elems, n, false),)*
                _ => unreachable!(),
            }
        };
    }
    use fenris::connectivity::*;
    if kind.rdim() == 2 {
        go!(U2, Tri3 Tri3d2Connectivity, Tri6 Tri6d2Connectivity, Quad4 Quad4d2Connectivity, Quad9 Quad9d2Connectivity)
    } else {
        go!(U3, Tet4 Tet4Connectivity, Tet10 Tet10Connectivity, Tet20 Tet20Connectivity, Hex8 Hex8Connectivity, Hex20 Hex20Connectivity, Hex27 Hex27Connectivity)
    }
}

/// Elements without inverse Jacobian are reported, and do not disturb later elements
fn singular(c: &mut Case) -> Res {
    let d = *c.pick(&[2, 3]);
    let (mut elems, n) = gen_elems(c, d, 3, 5.0, 0.2, false);
    let bad = c.int(0, elems.len());
    let kinds = kinds_of_dim(d);
    let k = *c.pick(&kinds);
    let count = k.ref_nodes().len();
    let n = n.max(count);
    let nodes = c.distinct(count, n);
    elems.insert(bad, Elem::new(k, vec![vec![0.0; d]; k.num_corners()], nodes));
    let mut rules = gen_rules(c, &elems);
    if rules[bad].1.is_empty() || c.bool() {
        let n = c.int(1, 3);
        rules[bad] = (c.vec(n, |c| k.ref_point(c)), vec![1.0; n]);
    }
    let p: Vec<Vec<()>> = rules.iter().map(|r| vec![(); r.1.len()]).collect();
    let u = DVector::from_vec(c.values(n, 1.0));
    macro_rules! go {
        ($D:ty) => {{
            let space = MixedSpace::<$D>::new(elems, n);
            let elems = &space.elems;
            let fx: Fixture<$D, ()> = Fixture::new(c, elems, &rules, &p);
            let asm = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&space).with_operator(&LaplaceOperator).with_quadrature_table(&fx.general).with_u(&u).build();
            let visits = elems.len() + 3;
            for _ in 0..visits {
                let i = c.int(0, elems.len() - 1);
                if i == bad {
                    c.nontrivial();
                    let m = count;
                    let mut vector = DVector::zeros(m);
                    let mut matrix = DMatrix::zeros(m, m);
                    ensure!(asm.assemble_element_scalar(i).is_err(), "the energy of a degenerate element ({:?}) is not an error", k);
                    ensure!(asm.assemble_element_vector_into(i, DVectorViewMut::from(&mut vector)).is_err(), "the vector of a degenerate element ({:?}) is not an error", k);
                    ensure!(asm.assemble_element_matrix_into(i, DMatrixViewMut::from(&mut matrix)).is_err(), "the matrix of a degenerate element ({:?}) is not an error", k);
                } else {
                    let r = reference::<$D, U1, _>(&LaplaceOperator, &fx, i, &u, no_params, true);
                    let got = assemble::<$D, U1, _, _, _>(&LaplaceOperator, &space, &fx.general, i, elems[i].nodes.len(), &u, true, c.int(0, 5)).map_err(|e| format!("element {}: {}", i, e))?;
                    agree(&format!("element {} next to a degenerate one", i), &got, &r, true, true)?;
                }
            }
            Ok(())
        }};
    }
    if d == 2 {
        go!(U2)
    } else {
        go!(U3)
    }
}

/// Arrays whose sizes do not fit together are refused
fn refused(c: &mut Case) -> Res {
    let d = *c.pick(&[2, 3]);
    let (elems, n) = gen_elems(c, d, 3, 5.0, 0.2, false);
    if elems.is_empty() {
        discard!("no elements");
    }
    let rules = gen_rules(c, &elems);
    let i = c.int(0, elems.len() - 1);
    let u = DVector::from_vec(c.values(n, 1.0));
    macro_rules! go {
        ($D:ty) => {{
            let space = MixedSpace::<$D>::new(elems, n);
            let e = &space.elems[i];
            let k = e.nodes.len();
            let ul: Vec<f64> = e.nodes.iter().map(|a| u[*a]).collect();
            let points: Vec<OPoint<f64, $D>> = rules[i].0.iter().map(|p| opoint(p)).collect();
            let m = points.len();
            // sizes of weights, points, data, buffer, state, output rows, output columns
            let good = [m, m, m, k, k, k, k];
            let mut sizes = good;
            let which = c.int(0, 7);
            if which < 7 {
                sizes[which] = if good[which] > 0 && c.bool() { good[which] - 1 } else { good[which] + 1 };
                c.nontrivial();
            }
            c.note(|| format!("element {:?} with {} quadrature points; weights, points, data, buffer columns, state, output rows, output columns: {:?}", e.kind, m, sizes));
            let w: Vec<f64> = (0..sizes[0]).map(|a| rules[i].1.get(a).copied().unwrap_or(1.0)).collect();
            let x: Vec<OPoint<f64, $D>> = (0..sizes[1]).map(|a| points.get(a).cloned().unwrap_or(OPoint::origin())).collect();
            let data = vec![(); sizes[2]];
            let ul = DVector::from_fn(sizes[4], |a, _| ul.get(a).copied().unwrap_or(1.0));
            let element = ElementInSpace::from_space_and_element_index(&space, i);
            let buffer = || OMatrix::<f64, $D, Dyn>::from_element_generic(<$D>::name(), Dyn(sizes[3]), 3.0);
            // whether every array the call uses fits
            let fits = |used: &[usize]| used.iter().all(|a| sizes[*a] == good[*a]);
            let mut buf = buffer();
            let r = catch(|| {
                let mut matrix = DMatrix::zeros(sizes[5], sizes[6]);
                assemble_element_elliptic_matrix(DMatrixViewMut::from(&mut matrix), &element, &LaplaceOperator, DVectorView::from(&ul), &w, &x, &data, MatrixViewMut::from(&mut buf)).is_ok()
            });
            ensure!(matches!(r, Ok(true)) == fits(&[0, 1, 2, 3, 4, 5, 6]), "element matrix: {:?}", r);
            let mut buf = buffer();
            let r = catch(|| {
                let mut vector = DVector::zeros(sizes[5]);
                assemble_element_elliptic_vector(DVectorViewMut::from(&mut vector), &element, &LaplaceOperator, DVectorView::from(&ul), &w, &x, &data, MatrixViewMut::from(&mut buf)).is_ok()
            });
            ensure!(matches!(r, Ok(true)) == fits(&[0, 1, 2, 3, 4, 5]), "element vector: {:?}", r);
            let mut buf = buffer();
            let r = catch(|| compute_element_elliptic_energy(&element, &LaplaceOperator, DVectorView::from(&ul), &w, &x, &data, MatrixViewMut::from(&mut buf)).is_ok());
            ensure!(matches!(r, Ok(true)) == fits(&[0, 1, 2, 3, 4]), "element energy: {:?}", r);
            // the assembler
            let p: Vec<Vec<()>> = rules.iter().map(|r| vec![(); r.1.len()]).collect();
            let fx: Fixture<$D, ()> = Fixture::new(c, &space.elems, &rules, &p);
            let asm = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&space).with_operator(&LaplaceOperator).with_quadrature_table(&fx.general).with_u(&u).build();
            let r = catch(|| asm.assemble_element_matrix_into(i, DMatrixViewMut::from(&mut DMatrix::zeros(sizes[5], sizes[6]))).is_ok());
            ensure!(matches!(r, Ok(true)) == fits(&[5, 6]), "element matrix of the assembler: {:?}", r);
            let r = catch(|| asm.assemble_element_vector_into(i, DVectorViewMut::from(&mut DVector::zeros(sizes[5]))).is_ok());
            ensure!(matches!(r, Ok(true)) == fits(&[5]), "element vector of the assembler: {:?}", r);
            Ok(())
        }};
    }
    if d == 2 {
        go!(U2)
    } else {
        go!(U3)
    }
}

/// Meshes with hundreds of cells
fn huge(c: &mut Case) -> Res {
    c.boost = 300;
    meshes(c)
}

fn main() {
    pbt::main(Property {
        id: "C12",
        rule: "element vector larger than rounding errors (kernels, meshes); at least one quadrature point (constant); the degenerate element is visited (singular); one array has another size (refused); huge: the same with meshes of up to a few thousand cells",
        assumptions: &["pointwise operators of the harness are consistent (fenris-solid materials: decided by C28)"],
        clauses: vec![
            clause("kernels", 94_000, 1_000_000, kernels),
            clause("constant", 450_000, 4_500_000, rigid),
            clause("meshes", 45_000, 500_000, meshes),
            clause("singular", 150_000, 1_500_000, singular),
            clause("refused", 80_000, 800_000, refused),
            clause("huge", 2000, 20000, huge),
        ],
    })
}
