//! C17: integration over elements and meshes, error estimates.
use fenris::allocators::{BiDimAllocator, TriDimAllocator};
use fenris::assembly::global::{assemble_scalar, par_assemble_scalar};
use fenris::assembly::local::*;
use fenris::connectivity::*;
use fenris::element::*;
use fenris::error::*;
use fenris::integrate::dependency::*;
use fenris::integrate::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::{DMatrix, DVector, DVectorView, DefaultAllocator, OMatrix, OPoint, OVector, U1, U2, U3};
use fenris::space::*;
use fenris::SmallDim;
use fenris_nested_vec::NestedVec;
use pbt::elems::*;
use pbt::meshes::*;
use pbt::quad::*;
use pbt::spaces::*;
use pbt::*;
use std::marker::PhantomData;

/// f_k(x, u, g) = sum of products of at most two of the variables
#[derive(Debug, Clone)]
struct Integrand {
    outputs: Vec<Vec<(f64, Vec<Var>)>>,
}

#[derive(Debug, Clone, Copy)]
enum Var {
    X(usize),
    U(usize),
    /// derivative of component .1 in direction .0
    G(usize, usize),
}

impl Integrand {
    fn random(c: &mut Case, o: usize, d: usize, s: usize, u: bool, g: bool) -> Integrand {
        let mut vars: Vec<Var> = (0..d).map(Var::X).collect();
        if u {
            vars.extend((0..s).map(Var::U));
        }
        if g {
            vars.extend((0..d).flat_map(|i| (0..s).map(move |j| Var::G(i, j))));
        }
        let outputs = (0..o)
            .map(|_| {
                let n = c.int(1, 3);
                c.vec(n, |c| {
                    let k = c.int(0, 2);
                    (c.f64(-2.0, 2.0), c.vec(k, |c| *c.pick(&vars)))
                })
            })
            .collect();
        Integrand { outputs }
    }

    fn value(v: Var, x: &[f64], u: &[f64], g: &dyn Fn(usize, usize) -> f64) -> f64 {
        match v {
            Var::X(i) => x[i],
            Var::U(i) => u[i],
            Var::G(i, j) => g(i, j),
        }
    }

    fn eval(&self, x: &[f64], u: &[f64], g: &dyn Fn(usize, usize) -> f64) -> Vec<f64> {
        self.outputs.iter().map(|t| t.iter().map(|(a, vs)| a * vs.iter().map(|v| Self::value(*v, x, u, g)).product::<f64>()).sum()).collect()
    }

    /// Bound on the terms when x, u and g have the sizes
    fn size(&self, x: f64, u: f64, g: f64) -> f64 {
        self.outputs
            .iter()
            .map(|t| {
                t.iter()
                    .map(|(a, vs)| {
                        a.abs()
                            * vs.iter()
                                .map(|v| match v {
                                    Var::X(_) => x,
                                    Var::U(_) => u,
                                    Var::G(..) => g,
                                })
                                .product::<f64>()
                    })
                    .sum()
            })
            .fold(0.0, f64::max)
    }
}

struct Workspaces {
    direct: IntegrationWorkspace<f64>,
}

fn no_grad(_: usize, _: usize) -> f64 {
    f64::NAN
}

/// Value and gradient (gdim x s) of the interpolant at a reference point, and their sizes
fn interpolant(e: &Elem, xi: &[f64], u: &DVector<f64>, s: usize, gradient: bool) -> (Vec<f64>, Option<DMatrix<f64>>, f64, f64) {
    let phi = e.basis(xi);
    let n = phi.len();
    let umax = u.amax();
    let val = (0..s).map(|k| (0..n).map(|i| phi[i] * u[s * i + k]).sum()).collect();
    let usize_ = phi.iter().map(|x| x.abs()).sum::<f64>() * umax;
    if !gradient {
        return (val, None, usize_, 0.0);
    }
    let g = e.physical_gradients(xi);
    let um = DMatrix::from_fn(n, s, |i, k| u[s * i + k]);
    let gsize = g.iter().map(|x| x.abs()).sum::<f64>() * umax;
    (val, Some(&g * um), usize_, gsize)
}

fn volume_element<D, S, O, E>(c: &mut Case, e: &Elem, element: &E, ws: &mut Workspaces) -> Res
where
    D: SmallDim,
    S: SmallDim,
    O: SmallDim,
    E: VolumetricFiniteElement<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: TriDimAllocator<f64, D, D, S> + BiDimAllocator<f64, D, S> + BiDimAllocator<f64, D, O> + BiDimAllocator<f64, D, D>,
{
    let (d, s, o) = (D::dim(), S::dim(), O::dim());
    let pts = e.kind.ref_points(c, 4);
    let nq = pts.len();
    let w = c.vec(nq, |c| if c.chance(1, 6) { 0.0 } else { c.f64(-0.3, 1.0) });
    let n = e.nodes.len();
    let us = c.magnitude(-2.0, 2.0);
    let u = DVector::from_vec(c.values(s * n, us));
    let which = c.int(0, 4);
    let (du, dg) = [(false, false), (true, false), (false, true), (true, true), (true, true)][which];
    let f = Integrand::random(c, o, d, s, du, dg);
    c.note(|| format!("{:?} corners {:?}, u {:?}, points {:?} weights {:?}, integrand {:?}", e.kind, e.corners, u.as_slice(), pts, w, f));
    let mut exp = vec![0.0; o];
    let mut tol = 0.0;
    for q in 0..nq {
        let x = e.map(&pts[q]);
        let (uv, g, us, gs) = interpolant(e, &pts[q], &u, s, dg);
        let wq = w[q] * e.det(&pts[q]).abs();
        let v = f.eval(&x, &uv, &|i, j| g.as_ref().map(|g| g[(i, j)]).unwrap_or(f64::NAN));
        for k in 0..o {
            exp[k] += wq * v[k];
        }
        tol += 1e-10 * wq.abs() * f.size(max_abs(&e.corners), us, gs);
    }
    c.nontrivial_if(exp.iter().any(|x| x.abs() > 1e3 * tol) && tol > 0.0);
    let rp: Vec<OPoint<f64, D>> = pts.iter().map(|p| opoint(p)).collect();
    let out = |v: Vec<f64>| OVector::<f64, O>::from_column_slice(&v);
    // the gradient is only computed when it is needed
    let f0 = |x: &OPoint<f64, D>| out(f.eval(x.coords.as_slice(), &[], &no_grad));
    let f1 = |x: &OPoint<f64, D>, u: &OVector<f64, S>| out(f.eval(x.coords.as_slice(), u.as_slice(), &no_grad));
    let f2 = |x: &OPoint<f64, D>, g: &OMatrix<f64, D, S>| out(f.eval(x.coords.as_slice(), &[], &|i, j| g[(i, j)]));
    let f3 = |x: &OPoint<f64, D>, u: &OVector<f64, S>, g: &OMatrix<f64, D, S>| out(f.eval(x.coords.as_slice(), u.as_slice(), &|i, j| g[(i, j)]));
    let ws = &mut ws.direct;
    let mut results: Vec<(&str, Vec<f64>)> = vec![];
    let sl = |v: OVector<f64, O>| v.iter().copied().collect::<Vec<f64>>();
    macro_rules! vol {
        ($f:expr) => {
            results.push(("integrate_over_volume_element", sl(integrate_over_volume_element(&$f, element, (&w, &rp), &u, ws).map_err(|e| format!("{:?}", e))?)))
        };
    }
    if !dg && !du {
        results.push(("integrate_over_element", sl(integrate_over_element(&FnFunction::new(f0).with_dependencies::<NoDeps<S>>(), element, (&w, &rp), &u, ws))));
    }
    if !dg {
        results.push(("integrate_over_element", sl(integrate_over_element(&FnFunction::new(f1), element, (&w, &rp), &u, ws))));
        vol!(FnFunction::new(f1).with_dependencies::<DependsOnU>());
    } else if !du {
        vol!(FnFunction::new(f2).with_dependencies::<DependsOnGrad>());
    }
    vol!(FnFunction::new(f3));
    for (label, r) in results {
        for k in 0..o {
            ensure!((r[k] - exp[k]).abs() <= tol, "{} of {:?}: component {} is {}, the quadrature sum is {}", label, e.kind, k, r[k], exp[k]);
        }
    }
    Ok(())
}

fn surface_element<E, S, O>(c: &mut Case, kind: Kind, corners: &[Vec<f64>], element: &E, ws: &mut Workspaces) -> Res
where
    S: SmallDim,
    O: SmallDim,
    E: FiniteElement<f64>,
    DefaultAllocator: TriDimAllocator<f64, E::GeometryDim, E::ReferenceDim, S> + BiDimAllocator<f64, E::GeometryDim, O> + BiDimAllocator<f64, E::GeometryDim, E::ReferenceDim>,
{
    let (d, s, o) = (kind.gdim(), S::dim(), O::dim());
    let shape = Shape::of(kind);
    let n = corners.len();
    let us = c.magnitude(-2.0, 2.0);
    let u = DVector::from_vec(c.values(s * n, us));
    let du = c.bool();
    let f = Integrand::random(c, o, d, s, du, false);
    c.note(|| format!("{:?} corners {:?}, u {:?}, integrand {:?}", kind, corners, u.as_slice(), f));
    // everything is a polynomial of degree 2: closed form with an exact rule
    let measure = if kind == Kind::Seg2 {
        dist(&corners[0], &corners[1])
    } else {
        let e = |i: usize| fenris::nalgebra::Vector3::from_fn(|k, _| corners[i][k] - corners[0][k]);
        e(1).cross(&e(2)).norm() / 2.0
    };
    let density = measure / shape.measure();
    let field = |xi: &[f64]| -> (Vec<f64>, Vec<f64>) {
        let phi = kind.corner_weights(xi);
        (kind.map(corners, xi), (0..s).map(|k| (0..n).map(|i| phi[i] * u[s * i + k]).sum()).collect())
    };
    let mut exp = vec![0.0; o];
    for (xi, w) in shape.rule(4) {
        let (x, uv) = field(&xi);
        let v = f.eval(&x, &uv, &no_grad);
        for k in 0..o {
            exp[k] += w * density * v[k];
        }
    }
    let tol = 1e-10 * measure * f.size(max_abs(corners), us, 0.0);
    c.nontrivial_if(exp.iter().any(|x| x.abs() > 1e3 * tol));
    let rule = shape.rule(2);
    let w: Vec<f64> = rule.iter().map(|r| r.1).collect();
    let rp: Vec<OPoint<f64, E::ReferenceDim>> = rule.iter().map(|r| opoint(&r.0)).collect();
    let out = |v: Vec<f64>| OVector::<f64, O>::from_column_slice(&v);
    let r = if du {
        integrate_over_element(&FnFunction::new(|x: &OPoint<f64, E::GeometryDim>, u: &OVector<f64, S>| out(f.eval(x.coords.as_slice(), u.as_slice(), &no_grad))), element, (&w, &rp), &u, &mut ws.direct)
    } else {
        integrate_over_element(
            &FnFunction::new(|x: &OPoint<f64, E::GeometryDim>| out(f.eval(x.coords.as_slice(), &[], &no_grad))).with_dependencies::<NoDeps<S>>(),
            element,
            (&w, &rp),
            &u,
            &mut ws.direct,
        )
    };
    for k in 0..o {
        ensure!((r[k] - exp[k]).abs() <= tol, "{:?}: component {} of the integral is {}, the exact one is {}", kind, k, r[k], exp[k]);
    }
    Ok(())
}

fn element(c: &mut Case) -> Res {
    let mut ws = Workspaces { direct: IntegrationWorkspace::default() };
    let rounds = c.int(1, 3);
    for _ in 0..rounds {
        let kind = *c.pick(&ALL);
        let corners = gen_corners(c, kind, 10.0, 0.2, false);
        let (s, o) = (c.int(1, 3), c.int(1, 3));
        macro_rules! surface {
            ($e:expr) => {
                match (s, o) {
                    (1, 1) => surface_element::<_, U1, U1>(c, kind, &corners, &$e, &mut ws)?,
                    (1, _) => surface_element::<_, U1, U3>(c, kind, &corners, &$e, &mut ws)?,
                    (2, 1) => surface_element::<_, U2, U1>(c, kind, &corners, &$e, &mut ws)?,
                    (2, _) => surface_element::<_, U2, U3>(c, kind, &corners, &$e, &mut ws)?,
                    (_, 2) => surface_element::<_, U3, U2>(c, kind, &corners, &$e, &mut ws)?,
                    _ => surface_element::<_, U3, U1>(c, kind, &corners, &$e, &mut ws)?,
                }
            };
        }
        if kind == Kind::Seg2 {
            surface!(Segment2d2Element::from_vertices([opoint(&corners[0]), opoint(&corners[1])]));
            continue;
        } else if kind == Kind::Tri3d3 {
            surface!(Tri3d3Element::from_vertices([opoint(&corners[0]), opoint(&corners[1]), opoint(&corners[2])]));
            continue;
        }
        let n = kind.ref_nodes().len();
        let elem = Elem::new(kind, corners, (0..n).collect());
        macro_rules! vol {
            ($D:ty) => {{
                let space = MixedSpace::<$D>::new(vec![elem], n);
                let e = ElementInSpace::from_space_and_element_index(&space, 0);
                match (s, o) {
                    (1, 1) => volume_element::<$D, U1, U1, _>(c, &space.elems[0], &e, &mut ws)?,
                    (1, _) => volume_element::<$D, U1, U3, _>(c, &space.elems[0], &e, &mut ws)?,
                    (2, 1) => volume_element::<$D, U2, U1, _>(c, &space.elems[0], &e, &mut ws)?,
                    (2, _) => volume_element::<$D, U2, U3, _>(c, &space.elems[0], &e, &mut ws)?,
                    (_, 2) => volume_element::<$D, U3, U2, _>(c, &space.elems[0], &e, &mut ws)?,
                    _ => volume_element::<$D, U3, U1, _>(c, &space.elems[0], &e, &mut ws)?,
                }
            }};
        }
        match kind.gdim() {
            1 => vol!(U1),
            2 => vol!(U2),
            _ => vol!(U3),
        }
    }
    Ok(())
}

/// The volume form is the ratio of measures, for every pair of dimensions
fn form(c: &mut Case) -> Res {
    let scale = c.length_scale(3.0);
    macro_rules! go {
        ($G:ty, $R:ty, $g:expr, $r:expr) => {{
            let a = gen_affine(c, $g, $r, 10.0, false) * scale;
            let sv = a.clone().singular_values();
            let exact: f64 = sv.iter().product();
            let j = OMatrix::<f64, $G, $R>::from_fn(|i, k| a[(i, k)]);
            c.note(|| format!("jacobian {:?}", j));
            let v = volume_form::<f64, $G, $R>(&j);
            ensure!((v - exact).abs() <= 1e-11 * scale.powi($r), "volume form of {:?} is {}, the product of the singular values is {}", j, v, exact);
            let z = OMatrix::<f64, $G, $R>::zeros();
            ensure_eq!(volume_form::<f64, $G, $R>(&z), 0.0);
        }};
    }
    c.nontrivial();
    match c.int(0, 5) {
        0 => go!(U1, U1, 1, 1),
        1 => go!(U2, U2, 2, 2),
        2 => go!(U3, U3, 3, 3),
        3 => go!(U2, U1, 2, 1),
        4 => go!(U3, U1, 3, 1),
        _ => go!(U3, U2, 3, 2),
    }
    Ok(())
}

/// Degenerate elements: an error where gradients are needed, integral zero otherwise
fn singular(c: &mut Case) -> Res {
    let kind = *c.pick(&[Kind::Seg1, Kind::Tri3, Kind::Tri6, Kind::Tet4, Kind::Tet10, Kind::Quad4, Kind::Hex8, Kind::Hex27]);
    let d = kind.gdim();
    // all corners in a coordinate plane, with coordinates for which the determinant is computed as exactly zero
    let flat = c.int(0, d - 1);
    let refs = kind.linear().ref_nodes();
    let corners: Vec<Vec<f64>> = refs.iter().map(|x| (0..d).map(|k| if k == flat { 2.0 } else { x[k] * 4.0 + 1.0 }).collect()).collect();
    let n = kind.ref_nodes().len();
    let elem = Elem::new(kind, corners, (0..n).collect());
    let nq = c.int(1, 3);
    let pts = c.vec(nq, |c| kind.ref_nodes()[c.int(0, kind.ref_nodes().len() - 1)].clone());
    let w = c.vec(nq, |_| 0.5);
    c.note(|| format!("{:?} flat in direction {}, points {:?}", kind, flat, pts));
    c.nontrivial();
    let u = DVector::from_element(n, 1.0);
    macro_rules! go {
        ($D:ty) => {{
            let space = MixedSpace::<$D>::new(vec![elem], n);
            let e = ElementInSpace::from_space_and_element_index(&space, 0);
            let rp: Vec<OPoint<f64, $D>> = pts.iter().map(|p| opoint(p)).collect();
            let mut ws = IntegrationWorkspace::default();
            let f = FnFunction::new(|_: &OPoint<f64, $D>, _: &OMatrix<f64, $D, U1>| OVector::<f64, U1>::new(1.0)).with_dependencies::<DependsOnGrad>();
            ensure!(integrate_over_volume_element(&f, &e, (&w, &rp), &u, &mut ws).is_err(), "no error for a singular Jacobian");
            let f = FnFunction::new(|_: &OPoint<f64, $D>, u: &OVector<f64, U1>| *u);
            ensure_eq!(integrate_over_element(&f, &e, (&w, &rp), &u, &mut ws)[0], 0.0);
            let table = UniformQuadratureTable::from_points_and_weights(rp, w);
            let f = FnFunction::new(|_: &OPoint<f64, $D>, _: &OMatrix<f64, $D, U1>| OVector::<f64, U1>::new(1.0)).with_dependencies::<DependsOnGrad>();
            let asm = ElementIntegralAssemblerBuilder::<_, _, U1, _, _>::new().with_space(&space).with_quadrature_table(&table).with_interpolation_weights(&u).with_integrand(f).build_volume_integrator();
            ensure!(assemble_scalar(&asm).is_err(), "no error for a singular Jacobian");
        }};
    }
    match d {
        1 => go!(U1),
        2 => go!(U2),
        _ => go!(U3),
    }
    Ok(())
}

/// Integrals of polynomials over meshes: exact, additive, and covariant under similarity transformations
struct MeshCase {
    kind: Kind,
    verts: Vec<Vec<f64>>,
    cells: Vec<Vec<usize>>,
}

fn gen_case(c: &mut Case) -> MeshCase {
    let kind = *c.pick(&ALL);
    if VOLUME.contains(&kind) {
        let g = gen_mesh(c, kind, &MeshOpts { max_cells: if kind.rdim() == 3 { 4 } else { 8 }, empty: true, distort: 0.15, ..Default::default() });
        MeshCase { kind, verts: g.verts, cells: g.cells }
    } else {
        // curves and surfaces, as soups of cells with shared vertices
        let n = c.int(0, 5);
        let nv = kind.num_corners() + c.int(0, 5);
        let scale = c.length_scale(1.0);
        let verts = c.vec(nv, |c| c.vec(kind.gdim(), |c| scale * c.f64(-1.0, 1.0)));
        let mut cells = vec![];
        for _ in 0..n {
            let cell = c.distinct(kind.num_corners(), nv);
            let p: Vec<&Vec<f64>> = cell.iter().map(|i| &verts[*i]).collect();
            let a = if kind == Kind::Tri3d3 {
                let e = |i: usize| fenris::nalgebra::Vector3::from_fn(|k, _| p[i][k] - p[0][k]);
                e(1).cross(&e(2)).norm() / (e(1).norm_squared() + e(2).norm_squared())
            } else {
                dist(p[0], p[1]) / scale
            };
            if a > 0.02 {
                cells.push(cell);
            }
        }
        MeshCase { kind, verts, cells }
    }
}

fn density(kind: Kind, corners: &[Vec<f64>], xi: &[f64]) -> f64 {
    let j = kind.jacobian(corners, xi);
    (j.transpose() * j).determinant().max(0.0).sqrt()
}

fn mesh_integral<C, S>(m: &MeshCase, verts: &[Vec<f64>], u: &DVector<f64>, f: &(dyn Fn(&[f64], &[f64]) -> f64 + Sync), degree: usize, par: bool) -> Result<(f64, Vec<f64>), Stop>
where
    C: Connectivity + ElementConnectivity<f64> + FromIndices + Sync,
    C::GeometryDim: SmallDim,
    C::ReferenceDim: SmallDim,
    S: SmallDim,
    Mesh<f64, C::GeometryDim, C>: FiniteElementSpace<f64, GeometryDim = C::GeometryDim, ReferenceDim = C::ReferenceDim> + Sync,
    OPoint<f64, C::ReferenceDim>: Sync,
    DefaultAllocator: TriDimAllocator<f64, C::GeometryDim, C::ReferenceDim, S> + BiDimAllocator<f64, C::GeometryDim, C::ReferenceDim>,
{
    let mesh: Mesh<f64, C::GeometryDim, C> = Mesh::from_vertices_and_connectivity(verts.iter().map(|v| opoint(v)).collect(), m.cells.iter().map(|x| C::from_indices(x)).collect());
    let rule = Shape::of(m.kind).rule(degree);
    let table = UniformQuadratureTable::from_points_and_weights(rule.iter().map(|r| opoint::<C::ReferenceDim>(&r.0)).collect(), rule.iter().map(|r| r.1).collect());
    let integrand = FnFunction::new(|x: &OPoint<f64, C::GeometryDim>, u: &OVector<f64, S>| OVector::<f64, U1>::new(f(x.coords.as_slice(), u.as_slice())));
    let asm = ElementIntegralAssemblerBuilder::<_, _, S, _, _>::new().with_space(&mesh).with_quadrature_table(&table).with_interpolation_weights(u).with_integrand(integrand).build_integrator();
    let total = if par { par_assemble_scalar(&asm) } else { assemble_scalar(&asm) }.map_err(|e| e.to_string())?;
    let parts: Result<Vec<f64>, _> = (0..m.cells.len()).map(|i| asm.assemble_element_scalar(i)).collect();
    Ok((total, parts.map_err(|e| e.to_string())?))
}

fn meshes(c: &mut Case) -> Res {
    let m = gen_case(c);
    let kind = m.kind;
    let (g, r) = (kind.gdim(), kind.rdim());
    let s = c.int(1, 3);
    c.class_if(!VOLUME.contains(&kind), "curve or surface");
    let u = DVector::from_fn(s * m.verts.len(), |_, _| c.sint(-5, 5) as f64);
    // polynomial of degree two in x, linear in u
    let p = Poly::random(c, &total_degree(g, 2));
    let cu = c.vec(s, |c| c.sint(-3, 3) as f64);
    let f = |x: &[f64], u: &[f64]| p.eval(x) + cu.iter().zip(u).map(|(a, b)| a * b).sum::<f64>();
    c.note(|| format!("{:?} mesh with vertices {:?} and cells {:?}; u = {:?}, p = {:?}, coefficients of u {:?}", kind, m.verts, m.cells, u.as_slice(), p.terms, cu));
    let degree = kind.order() * 2 + 2 * r;
    let radius = max_abs(&m.verts).max(1e-300);
    let size = |rad: f64| p.terms.iter().map(|(a, e)| a.abs() * rad.powi(e.iter().sum::<u32>() as i32)).sum::<f64>() + cu.iter().map(|x| x.abs()).sum::<f64>() * 40.0;
    // exact values cell by cell, with the independent map and the independent basis
    let mut exact = vec![];
    let mut total_measure = 0.0;
    for cell in &m.cells {
        let corners: Vec<Vec<f64>> = cell[..kind.num_corners()].iter().map(|i| m.verts[*i].clone()).collect();
        let pos: Vec<Vec<f64>> = kind.all_nodes(&corners);
        let e = kind.element(&pos);
        let shape = Shape::of(kind);
        let mut v = 0.0;
        for (xi, w) in shape.rule(degree + 3) {
            let dens = density(kind, &corners, &xi);
            let phi = e.basis(&xi);
            let uv: Vec<f64> = (0..s).map(|k| cell.iter().zip(&phi).map(|(n, b)| b * u[s * n + k]).sum()).collect();
            v += w * dens * f(&kind.map(&corners, &xi), &uv);
            total_measure += w * dens;
        }
        exact.push(v);
    }
    let sum: f64 = exact.iter().sum();
    let tol = 1e-9 * total_measure * size(radius);
    c.nontrivial_if(m.cells.len() > 1 && sum.abs() > 1e3 * tol);
    // similarity transformation
    let rot = gen_rotation(c, g);
    let factor = c.length_scale(1.0);
    let t = c.vec(g, |c| radius * c.f64(-3.0, 3.0));
    let moved: Vec<Vec<f64>> = m.verts.iter().map(|v| (0..g).map(|i| factor * (0..g).map(|j| rot[(i, j)] * v[j]).sum::<f64>() + t[i]).collect()).collect();
    let back = |y: &[f64]| -> Vec<f64> { (0..g).map(|i| (0..g).map(|j| rot[(j, i)] * (y[j] - t[j])).sum::<f64>() / factor).collect() };
    let fm = |y: &[f64], u: &[f64]| f(&back(y), u);
    let f2 = |x: &[f64], u: &[f64]| 2.5 * f(x, u) - 3.0 * x[0];
    let fx = |x: &[f64], _: &[f64]| x[0];
    let par = c.chance(1, 4);
    macro_rules! run {
        ($verts:expr, $f:expr) => {
            for_kind!(kind, C => match s {
                1 => mesh_integral::<C, U1>(&m, $verts, &u, $f, degree, par)?,
                2 => mesh_integral::<C, U2>(&m, $verts, &u, $f, degree, par)?,
                _ => mesh_integral::<C, U3>(&m, $verts, &u, $f, degree, par)?,
            })
        };
    }
    let (total, parts) = run!(&m.verts, &f);
    for i in 0..parts.len() {
        ensure!((parts[i] - exact[i]).abs() <= tol, "integral over cell {} is {}, the exact one is {}", i, parts[i], exact[i]);
    }
    ensure!((total - sum).abs() <= tol, "integral over the mesh is {}, the exact one is {}", total, sum);
    let (other, _) = run!(&m.verts, &fx);
    let (combined, _) = run!(&m.verts, &f2);
    ensure!((combined - (2.5 * total - 3.0 * other)).abs() <= 4.0 * tol + 1e-9 * total_measure * radius, "integral of 2.5 f - 3 x0 is {}, but f gives {} and x0 gives {}", combined, total, other);
    let (after, _) = run!(&moved, &fm);
    let k = factor.powi(r as i32);
    // the transformed coordinates carry errors relative to the offset
    let amp = 1.0 + 5.0 / factor;
    ensure!((after - k * total).abs() <= k * tol * amp * amp, "after scaling by {}, rotating and translating the mesh, the integral is {}, expected {} times {}", factor, after, k, total);
    Ok(())
}

type Rules = Vec<(Vec<Vec<f64>>, Vec<f64>)>;

fn table<D: SmallDim>(rules: &Rules) -> GeneralQuadratureTable<f64, D>
where
    DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D>,
{
    let pts: Vec<Vec<OPoint<f64, D>>> = rules.iter().map(|r| r.0.iter().map(|p| opoint(p)).collect()).collect();
    let w: Vec<Vec<f64>> = rules.iter().map(|r| r.1.clone()).collect();
    GeneralQuadratureTable::from_points_and_weights(NestedVec::from(&pts), NestedVec::from(&w))
}

/// Sums over the elements of a space of mixed elements, with interpolated values and gradients
fn space_on<D, S>(c: &mut Case, elems: Vec<Elem>, n: usize) -> Res
where
    D: SmallDim,
    S: SmallDim,
    DefaultAllocator: TriDimAllocator<f64, D, D, S> + BiDimAllocator<f64, D, S> + BiDimAllocator<f64, D, D> + BiDimAllocator<f64, D, U1>,
    MixedSpace<D>: Sync,
    OPoint<f64, D>: Send + Sync,
{
    let (d, s) = (D::dim(), S::dim());
    let space = MixedSpace::<D> { elems, num_nodes: n, located: vec![], dim: PhantomData };
    let rules: Rules = space
        .elems
        .iter()
        .map(|e| {
            let pts = e.kind.ref_points(c, 4);
            let w = c.vec(pts.len(), |c| c.f64(0.0, 1.0));
            (pts, w)
        })
        .collect();
    let u = DVector::from_vec(c.values(s * n, 2.0));
    let f = Integrand::random(c, 1, d, s, true, true);
    let f_plain = Integrand::random(c, 1, d, s, true, false);
    // reference function: components quadratic polynomials
    let refs: Vec<Poly> = (0..s).map(|_| Poly::random(c, &total_degree(d, 2))).collect();
    c.note(|| {
        format!(
            "elements {:?}, u {:?}, integrands {:?} and {:?}, reference function {:?}",
            space.elems.iter().zip(&rules).map(|(e, r)| (e.kind, &e.nodes, &e.corners, r)).collect::<Vec<_>>(),
            u.as_slice(),
            f,
            f_plain,
            refs.iter().map(|p| &p.terms).collect::<Vec<_>>()
        )
    });
    let t = table::<D>(&rules);
    let ne = space.elems.len();
    // [with gradient, plain, L2, H1] per element
    let mut exp = vec![[0.0f64; 4]; ne];
    let mut tol = vec![[0.0f64; 4]; ne];
    for (i, e) in space.elems.iter().enumerate() {
        for (xi, w) in rules[i].0.iter().zip(&rules[i].1) {
            let ul = DVector::from_fn(s * e.nodes.len(), |a, _| u[s * e.nodes[a / s] + a % s]);
            let (uv, g, us, gs) = interpolant(e, xi, &ul, s, true);
            let g = g.unwrap();
            let x = e.map(xi);
            let w = w * e.det(xi).abs();
            let rad = max_abs(&e.corners);
            exp[i][0] += w * f.eval(&x, &uv, &|a, b| g[(a, b)])[0];
            tol[i][0] += 1e-10 * w * f.size(rad, us, gs);
            exp[i][1] += w * f_plain.eval(&x, &uv, &no_grad)[0];
            tol[i][1] += 1e-10 * w * f_plain.size(rad, us, gs);
            let (mut l2, mut h1) = (0.0, 0.0);
            for k in 0..s {
                l2 += (uv[k] - refs[k].eval(&x)).powi(2);
                let rg = refs[k].grad(&x);
                h1 += (0..d).map(|a| (g[(a, k)] - rg[a]).powi(2)).sum::<f64>();
            }
            exp[i][2] += w * l2;
            exp[i][3] += w * h1;
            let rs = refs.iter().map(|p| p.size(rad)).fold(0.0, f64::max);
            tol[i][2] += 1e-10 * w * s as f64 * (us + rs).powi(2);
            tol[i][3] += 1e-10 * w * (s * d) as f64 * (gs + 2.0 * rs).powi(2);
        }
    }
    let total = |k: usize| exp.iter().map(|e| e[k]).sum::<f64>();
    let ttol = |k: usize| tol.iter().map(|e| e[k]).sum::<f64>();
    c.nontrivial_if((0..4).any(|k| total(k).abs() > 1e3 * ttol(k)));
    let f0 = FnFunction::new(|x: &OPoint<f64, D>, u: &OVector<f64, S>, g: &OMatrix<f64, D, S>| OVector::<f64, U1>::new(f.eval(x.coords.as_slice(), u.as_slice(), &|i, j| g[(i, j)])[0]));
    let f1 = FnFunction::new(|x: &OPoint<f64, D>, u: &OVector<f64, S>| OVector::<f64, U1>::new(f_plain.eval(x.coords.as_slice(), u.as_slice(), &no_grad)[0]));
    let a0 = ElementIntegralAssemblerBuilder::<_, _, S, _, _>::new().with_space(&space).with_quadrature_table(&t).with_interpolation_weights(&u).with_integrand(f0).build_volume_integrator();
    let a1 = ElementIntegralAssemblerBuilder::<_, _, S, _, _>::new().with_space(&space).with_quadrature_table(&t).with_interpolation_weights(&u).with_integrand(f1).build_integrator();
    ensure_eq!((a0.solution_dim(), a0.num_elements(), a0.num_nodes()), (s, ne, n));
    ensure_eq!((a1.solution_dim(), a1.num_elements(), a1.num_nodes()), (s, ne, n));
    if ne > 0 {
        for _ in 0..ne + c.int(0, 2) {
            let i = c.int(0, ne - 1);
            let v = a0.assemble_element_scalar(i).map_err(|e| e.to_string())?;
            ensure!((v - exp[i][0]).abs() <= tol[i][0], "integral with gradients over element {} is {}, the quadrature sum is {}", i, v, exp[i][0]);
            let v = a1.assemble_element_scalar(i).map_err(|e| e.to_string())?;
            ensure!((v - exp[i][1]).abs() <= tol[i][1], "integral over element {} is {}, the quadrature sum is {}", i, v, exp[i][1]);
        }
    }
    let reference = |x: &OPoint<f64, D>| OVector::<f64, S>::from_fn(|k, _| refs[k].eval(x.coords.as_slice()));
    let reference_grad = |x: &OPoint<f64, D>| {
        let g: Vec<Vec<f64>> = refs.iter().map(|p| p.grad(x.coords.as_slice())).collect();
        OMatrix::<f64, D, S>::from_fn(|i, k| g[k][i])
    };
    let got = [
        assemble_scalar(&a0).map_err(|e| e.to_string())?,
        assemble_scalar(&a1).map_err(|e| e.to_string())?,
        estimate_L2_error_squared::<f64, S, _, _>(&space, &reference, &u, &t).map_err(|e| e.to_string())?,
        estimate_H1_seminorm_error_squared::<f64, S, _, _>(&space, &reference_grad, &u, &t).map_err(|e| e.to_string())?,
    ];
    for (k, label) in ["integral with gradients", "integral", "squared L2 error", "squared H1 error"].iter().enumerate() {
        ensure!((got[k] - total(k)).abs() <= ttol(k), "{} is {}, the quadrature sum is {}", label, got[k], total(k));
    }
    let l2 = estimate_L2_error::<f64, S, _, _>(&space, &reference, &u, &t).map_err(|e| e.to_string())?;
    let h1 = estimate_H1_seminorm_error::<f64, S, _, _>(&space, &reference_grad, &u, &t).map_err(|e| e.to_string())?;
    ensure!((l2 * l2 - total(2)).abs() <= 2.0 * ttol(2) && l2 >= 0.0, "L2 error is {}, its exact square is {}", l2, total(2));
    ensure!((h1 * h1 - total(3)).abs() <= 2.0 * ttol(3) && h1 >= 0.0, "H1 error is {}, its exact square is {}", h1, total(3));
    // per element
    let mut ws = IntegrationWorkspace::default();
    for (i, e) in space.elems.iter().enumerate() {
        let ul = DVector::from_fn(s * e.nodes.len(), |a, _| u[s * e.nodes[a / s] + a % s]);
        let view: DVectorView<f64> = DVectorView::from(&ul);
        let element = ElementInSpace::from_space_and_element_index(&space, i);
        let rp: Vec<OPoint<f64, D>> = rules[i].0.iter().map(|p| opoint(p)).collect();
        let a = estimate_element_L2_error_squared::<f64, _, S>(&element, &reference, view, &rules[i].1, &rp, &mut ws);
        let b = estimate_element_L2_error::<f64, _, S>(&element, &reference, view, &rules[i].1, &rp, &mut ws);
        ensure!((a - exp[i][2]).abs() <= tol[i][2] && (b * b - a).abs() <= tol[i][2], "squared L2 error of element {} is {} (error {}), the quadrature sum is {}", i, a, b, exp[i][2]);
        let a = estimate_element_H1_seminorm_error_squared::<f64, _, S>(&element, &reference_grad, view, &rules[i].1, &rp, &mut ws);
        let b = estimate_element_H1_seminorm_error::<f64, _, S>(&element, &reference_grad, view, &rules[i].1, &rp, &mut ws);
        ensure!((a - exp[i][3]).abs() <= tol[i][3] && (b * b - a).abs() <= tol[i][3], "squared H1 error of element {} is {} (error {}), the quadrature sum is {}", i, a, b, exp[i][3]);
    }
    Ok(())
}

fn spaces(c: &mut Case) -> Res {
    let d = c.int(1, 3);
    let (elems, n) = gen_elems(c, d, if d == 3 { 3 } else { 4 }, 5.0, 0.2, false);
    match (d, c.int(1, 3)) {
        (1, 1) => space_on::<U1, U1>(c, elems, n),
        (1, _) => space_on::<U1, U2>(c, elems, n),
        (2, 1) => space_on::<U2, U1>(c, elems, n),
        (2, 2) => space_on::<U2, U2>(c, elems, n),
        (2, _) => space_on::<U2, U3>(c, elems, n),
        (_, 1) => space_on::<U3, U1>(c, elems, n),
        (_, 2) => space_on::<U3, U2>(c, elems, n),
        (_, _) => space_on::<U3, U3>(c, elems, n),
    }
}

/// The error of a function of the space against itself vanishes; against another polynomial it is the norm of the difference
fn errors(c: &mut Case) -> Res {
    let kind = *c.pick(&VOLUME);
    let d = kind.rdim();
    let g = gen_mesh(c, kind, &MeshOpts { max_cells: if d == 3 { 4 } else { 8 }, distort: 0.15, ..Default::default() });
    // polynomials in physical coordinates that every element contains
    let o = kind.order() as u32;
    let deg = if kind.affine() { o } else { 1 };
    let s = c.int(1, 3);
    let p: Vec<Poly> = (0..s).map(|_| Poly::random(c, &total_degree(d, deg))).collect();
    let q: Vec<Poly> = (0..s).map(|_| Poly::random(c, &total_degree(d, deg + 1))).collect();
    c.note(|| format!("{:?} mesh with vertices {:?} and cells {:?}; u = {:?}, reference {:?}", kind, g.verts, g.cells, p.iter().map(|p| &p.terms).collect::<Vec<_>>(), q.iter().map(|p| &p.terms).collect::<Vec<_>>()));
    let degree = 2 * (deg as usize + 1) + d;
    let rule = Shape::of(kind).rule(degree);
    let u = DVector::from_fn(s * g.verts.len(), |i, _| p[i % s].eval(&g.verts[i / s]));
    let (mut l2, mut h1, mut total) = (0.0, 0.0, 0.0);
    let fine = Shape::of(kind).rule(degree + 3);
    for i in 0..g.cells.len() {
        let corners = g.corners(i);
        for (xi, w) in &fine {
            let x = kind.map(&corners, xi);
            let w = w * kind.jacobian(&corners, xi).determinant().abs();
            total += w;
            for k in 0..s {
                l2 += w * (p[k].eval(&x) - q[k].eval(&x)).powi(2);
                let (a, b) = (p[k].grad(&x), q[k].grad(&x));
                h1 += w * (0..d).map(|j| (a[j] - b[j]).powi(2)).sum::<f64>();
            }
        }
    }
    let rad = max_abs(&g.verts);
    let h = (0..g.cells.len()).map(|i| diameter(&g.corners(i))).fold(f64::INFINITY, f64::min).max(1e-300);
    let sp = p.iter().chain(&q).map(|p| p.size(rad)).fold(0.0, f64::max);
    let tol_l2 = 1e-10 * total * s as f64 * sp * sp;
    // gradients are differences of nodal values over the size of the elements
    let gs = sp * (3.0 + 30.0 / h);
    let tol_h1 = 1e-10 * total * (s * d) as f64 * gs * gs;
    c.nontrivial_if(l2 > 1e3 * tol_l2 && h1 > 0.0);
    for_volume_kind!(kind, C => {
        type D<C> = <C as fenris::element::ElementConnectivity<f64>>::GeometryDim;
        let mesh = g.to_mesh::<C>();
        let t = UniformQuadratureTable::from_points_and_weights(rule.iter().map(|r| opoint::<D<C>>(&r.0)).collect(), rule.iter().map(|r| r.1).collect());
        macro_rules! go {
            ($S:ty) => {{
                let pf = |x: &OPoint<f64, D<C>>| OVector::<f64, $S>::from_fn(|k, _| p[k].eval(x.coords.as_slice()));
                let qf = |x: &OPoint<f64, D<C>>| OVector::<f64, $S>::from_fn(|k, _| q[k].eval(x.coords.as_slice()));
                let grad = |f: &[Poly], x: &OPoint<f64, D<C>>| {
                    let g: Vec<Vec<f64>> = f.iter().map(|p| p.grad(x.coords.as_slice())).collect();
                    OMatrix::<f64, D<C>, $S>::from_fn(|i, k| g[k][i])
                };
                let pg = |x: &OPoint<f64, D<C>>| grad(&p, x);
                let qg = |x: &OPoint<f64, D<C>>| grad(&q, x);
                let e = |e: fenris::eyre::Report| e.to_string();
                let zero = estimate_L2_error_squared::<f64, $S, _, _>(&mesh, &pf, &u, &t).map_err(e)?;
                ensure!(zero >= 0.0 && zero <= 1e-12 * tol_l2, "squared L2 error of a function against itself is {}", zero);
                let zero = estimate_H1_seminorm_error_squared::<f64, $S, _, _>(&mesh, &pg, &u, &t).map_err(e)?;
                ensure!(zero >= 0.0 && zero <= 1e-10 * tol_h1, "squared H1 error of a function against itself is {}", zero);
                let v = estimate_L2_error::<f64, $S, _, _>(&mesh, &qf, &u, &t).map_err(e)?;
                ensure!((v * v - l2).abs() <= tol_l2, "L2 error is {}, the norm of the difference is {}", v, l2.sqrt());
                let v = estimate_H1_seminorm_error::<f64, $S, _, _>(&mesh, &qg, &u, &t).map_err(e)?;
                ensure!((v * v - h1).abs() <= tol_h1, "H1 error is {}, the seminorm of the difference is {}", v, h1.sqrt());
            }};
        }
        match s {
            1 => go!(U1),
            2 => go!(U2),
            _ => go!(U3),
        }
    });
    Ok(())
}

/// A finite element function as the reference: found through point location
fn itself(c: &mut Case) -> Res {
    let kind = *c.pick(&[Kind::Tri3, Kind::Tet4]);
    let d = kind.rdim();
    let g = gen_mesh(c, kind, &MeshOpts { max_cells: if d == 3 { 3 } else { 6 }, distort: 0.15, ..Default::default() });
    let s = c.int(1, 2);
    let u = DVector::from_fn(s * g.verts.len(), |_, _| c.sint(-5, 5) as f64);
    let v = DVector::from_fn(s * g.verts.len(), |_, _| c.sint(-5, 5) as f64);
    c.note(|| format!("{:?} mesh with vertices {:?} and cells {:?}; u = {:?}, v = {:?}", kind, g.verts, g.cells, u.as_slice(), v.as_slice()));
    let rule = Shape::of(kind).rule(2);
    let fine = Shape::of(kind).rule(5);
    let (mut l2, mut h1, mut total) = (0.0, 0.0, 0.0);
    let mut gmax: f64 = 0.0;
    for (i, cell) in g.cells.iter().enumerate() {
        let corners = g.corners(i);
        let j = kind.jacobian(&corners, &vec![0.0; d]);
        let e = kind.element(&corners);
        let grad = j.clone().try_inverse().unwrap().transpose() * e.gradients(&vec![0.0; d]);
        gmax = gmax.max(grad.amax());
        let det = j.determinant().abs();
        let diff = DMatrix::from_fn(cell.len(), s, |a, k| u[s * cell[a] + k] - v[s * cell[a] + k]);
        for (xi, w) in &fine {
            let phi = e.basis(xi);
            total += w * det;
            for k in 0..s {
                l2 += w * det * (0..cell.len()).map(|a| phi[a] * diff[(a, k)]).sum::<f64>().powi(2);
            }
            h1 += w * det * (&grad * &diff).norm_squared();
        }
    }
    c.nontrivial_if(l2 > 0.0);
    let tol = 1e-9 * total * 400.0;
    let tol_h1 = 1e-9 * total * 400.0 * (1.0 + gmax * gmax);
    macro_rules! go {
        ($C:ty, $D:ty, $S:ty) => {{
            let mesh = g.to_mesh::<$C>();
            let space = SpatiallyIndexed::from_space(mesh);
            let t = UniformQuadratureTable::from_points_and_weights(rule.iter().map(|r| opoint::<$D>(&r.0)).collect(), rule.iter().map(|r| r.1).collect());
            let e = |e: fenris::eyre::Report| e.to_string();
            let uf = SpaceInterpolationFn(&space, DVectorView::from(&u));
            let vf = SpaceInterpolationFn(&space, DVectorView::from(&v));
            let x = estimate_L2_error_squared::<f64, $S, _, _>(&space, &uf, &u, &t).map_err(e)?;
            ensure!(x >= 0.0 && x <= tol * 1e-9, "squared L2 error of a function against itself is {}", x);
            let x = estimate_H1_seminorm_error_squared::<f64, $S, _, _>(&space, &uf, &u, &t).map_err(e)?;
            ensure!(x >= 0.0 && x <= tol_h1 * 1e-9, "squared H1 error of a function against itself is {}", x);
            let x = estimate_L2_error_squared::<f64, $S, _, _>(&space, &vf, &u, &t).map_err(e)?;
            ensure!((x - l2).abs() <= tol, "squared L2 distance of two finite element functions is {}, expected {}", x, l2);
            let x = estimate_H1_seminorm_error_squared::<f64, $S, _, _>(&space, &vf, &u, &t).map_err(e)?;
            ensure!((x - h1).abs() <= tol_h1, "squared H1 distance of two finite element functions is {}, expected {}", x, h1);
        }};
    }
    match (d, s) {
        (2, 1) => go!(Tri3d2Connectivity, U2, U1),
        (2, _) => go!(Tri3d2Connectivity, U2, U2),
        (_, 1) => go!(Tet4Connectivity, U3, U1),
        (_, _) => go!(Tet4Connectivity, U3, U2),
    }
    Ok(())
}

/// Meshes with hundreds of cells
fn huge(c: &mut Case) -> Res {
    c.boost = 500;
    match c.int(0, 2) {
        0 => meshes(c),
        1 => errors(c),
        _ => itself(c),
    }
}

fn main() {
    pbt::main(Property {
        id: "C17",
        rule: "the exact integral is larger than rounding errors; huge: the same with meshes of up to a few thousand cells",
        assumptions: &["basis functions and geometry maps are those of the documented reference elements (decided by C08 and C09)"],
        clauses: vec![
            clause("element", 480_000, 4_800_000, element),
            clause("form", 450_000, 4_500_000, form),
            clause("singular", 30_000, 300_000, singular),
            clause("spaces", 200_000, 3_000_000, spaces),
            clause("meshes", 10_000, 150_000, meshes),
            clause("errors", 6_000, 80_000, errors),
            clause("itself", 25_000, 250_000, itself),
            clause("huge", 20, 200, huge),
        ],
    })
}
