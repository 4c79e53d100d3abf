//! C13: mass matrices and source vectors.
use fenris::allocators::{BiDimAllocator, TriDimAllocator};
use fenris::assembly::global::{CsrAssembler, VectorAssembler};
use fenris::assembly::local::*;
use fenris::assembly::operators::Operator;
use fenris::nalgebra::{DMatrix, DMatrixViewMut, DVector, DVectorViewMut, DefaultAllocator, DimName, OPoint, OVector, U1, U2, U3};
use fenris::space::{ElementInSpace, VolumetricFiniteElementSpace};
use fenris::SmallDim;
use fenris_nested_vec::NestedVec;
use fenris_solid::GravitySource;
use pbt::elems::*;
use pbt::meshes::*;
use pbt::quad::*;
use pbt::spaces::*;
use pbt::*;
use std::marker::PhantomData;

/// f_i(x) = a_i + sum_j b_ij x_j + m_i x_0^2 with parameters of the point
struct TestSource<S>(PhantomData<S>);

#[derive(Clone, Debug, Default, PartialEq)]
struct SourceParams {
    a: Vec<f64>,
    b: Vec<Vec<f64>>,
    m: f64,
}

impl SourceParams {
    fn eval(&self, x: &[f64]) -> Vec<f64> {
        (0..self.a.len()).map(|i| self.a[i] + self.b[i].iter().zip(x).map(|(p, q)| p * q).sum::<f64>() + self.m * x[0] * x[0]).collect()
    }
    fn size(&self, r: f64) -> f64 {
        let b = self.b.iter().flatten().fold(0.0, |a: f64, x| a.max(x.abs()));
        self.a.iter().fold(0.0, |a: f64, x| a.max(x.abs())) + 4.0 * b * r + self.m.abs() * r * r
    }
}

impl<D: SmallDim, S: SmallDim> Operator<f64, D> for TestSource<S> {
    type SolutionDim = S;
    type Parameters = SourceParams;
}

impl<D: SmallDim, S: SmallDim> SourceFunction<f64, D> for TestSource<S>
where
    DefaultAllocator: BiDimAllocator<f64, D, S>,
{
    fn evaluate(&self, x: &OPoint<f64, D>, p: &SourceParams) -> OVector<f64, S> {
        OVector::<f64, S>::from_column_slice(&p.eval(x.coords.as_slice()))
    }
}

type Rules = Vec<(Vec<Vec<f64>>, Vec<f64>)>;

fn gen_rules(c: &mut Case, elems: &[Elem]) -> Rules {
    elems
        .iter()
        .map(|e| {
            let pts = e.kind.ref_points(c, 5);
            let w = c.vec(pts.len(), |c| if c.chance(1, 6) { 0.0 } else { c.f64(-0.3, 1.0) });
            (pts, w)
        })
        .collect()
}

fn note(c: &mut Case, elems: &[Elem], rules: &Rules) {
    c.note(|| {
        elems
            .iter()
            .zip(rules)
            .enumerate()
            .map(|(i, (e, r))| format!("element {}: {:?} nodes {:?} corners {:?}, quadrature points {:?} weights {:?}", i, e.kind, e.nodes, e.corners, r.0, r.1))
            .collect::<Vec<_>>()
            .join("\n    ")
    });
}

fn general<D: SmallDim, P: Clone>(rules: &Rules, data: &[Vec<P>]) -> GeneralQuadratureTable<f64, D, P>
where
    DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D>,
{
    let pts: Vec<Vec<OPoint<f64, D>>> = rules.iter().map(|r| r.0.iter().map(|p| opoint(p)).collect()).collect();
    let w: Vec<Vec<f64>> = rules.iter().map(|r| r.1.clone()).collect();
    GeneralQuadratureTable::from_points_weights_and_data(NestedVec::from(&pts), NestedVec::from(&w), NestedVec::from(&data.to_vec()))
}

fn max(m: &DMatrix<f64>) -> f64 {
    m.iter().fold(0.0, |a, x| a.max(x.abs()))
}

fn mass_on<D, Space>(c: &mut Case, space: &Space, elems: &[Elem]) -> Res
where
    D: SmallDim,
    Space: VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: BiDimAllocator<f64, D, D>,
{
    let rules = gen_rules(c, elems);
    note(c, elems, &rules);
    let unit = c.value_unit();
    let density: Vec<Vec<Density<f64>>> = rules.iter().map(|r| c.vec(r.1.len(), |c| Density(unit * c.f64(0.0, 3.0)))).collect();
    c.note(|| format!("densities {:?}", density.iter().map(|d| d.iter().map(|x| x.0).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let s = c.int(1, 4);
    for d in &density {
        let inner = Density::as_inner_slice(d);
        ensure!(inner.len() == d.len() && inner.iter().zip(d).all(|(a, b)| *a == b.0), "as_inner_slice of {:?} is {:?}", d, inner);
        ensure_eq!(Density::from_inner_slice(inner), &d[..], "from_inner_slice");
    }
    let table = general::<D, _>(&rules, &density);
    let asm = ElementMassAssembler::with_solution_dim(s).with_space(space).with_quadrature_table(&table);
    ensure_eq!(asm.solution_dim(), s);
    ensure_eq!((asm.num_elements(), asm.num_nodes()), (space.num_elements(), space.num_nodes()));
    if elems.is_empty() {
        return Ok(());
    }
    for _ in 0..elems.len() + c.int(0, 3) {
        let i = c.int(0, elems.len() - 1);
        let e = &elems[i];
        let n = e.nodes.len();
        let mut exp = DMatrix::zeros(n, n);
        let mut tol = 0.0;
        for q in 0..rules[i].1.len() {
            let phi = e.basis(&rules[i].0[q]);
            let w = rules[i].1[q] * e.det(&rules[i].0[q]).abs() * density[i][q].0;
            let pm = phi.iter().fold(0.0, |a: f64, x| a.max(x.abs()));
            tol += 1e-11 * w.abs() * pm * pm;
            for a in 0..n {
                for b in 0..n {
                    exp[(a, b)] += w * phi[a] * phi[b];
                }
            }
        }
        c.nontrivial_if(max(&exp) > 1e3 * tol && max(&exp) > 0.0);
        let mut out = DMatrix::from_element(s * n, s * n, 1e9);
        asm.assemble_element_matrix_into(i, DMatrixViewMut::from(&mut out)).map_err(|e| e.to_string())?;
        let mut low = DMatrix::from_element(s * n, s * n, -1e9);
        let element = ElementInSpace::from_space_and_element_index(space, i);
        let pts: Vec<OPoint<f64, D>> = rules[i].0.iter().map(|p| opoint(p)).collect();
        let rho: Vec<f64> = density[i].iter().map(|d| d.0).collect();
        assemble_element_mass_matrix(DMatrixViewMut::from(&mut low), &element, &rules[i].1, &pts, &rho, s, &mut vec![7.0; n]).map_err(|e| e.to_string())?;
        for (label, m) in [("element mass assembler", &out), ("assemble_element_mass_matrix", &low)] {
            for x in 0..s * n {
                for y in 0..s * n {
                    let v = m[(x, y)];
                    ensure!(v == m[(y, x)], "{}: element {} ({:?}): entries ({}, {}) and its transpose differ: {} {}", label, i, e.kind, x, y, v, m[(y, x)]);
                    if x % s != y % s {
                        ensure!(v == 0.0, "{}: element {} ({:?}): components {} and {} are coupled: {}", label, i, e.kind, x % s, y % s, v);
                    } else {
                        let ex = exp[(x / s, y / s)];
                        ensure!((v - ex).abs() <= tol, "{}: element {} ({:?}), solution dim {}: entry ({}, {}) is {}, quadrature sum is {}", label, i, e.kind, s, x, y, v, ex);
                        ensure!(v == m[(x - x % s, y - y % s)], "{}: components differ", label);
                    }
                }
            }
        }
    }
    Ok(())
}

fn source_on<D, S, Src, Space>(c: &mut Case, space: &Space, elems: &[Elem], rules: &Rules, source: &Src, data: &[Vec<Src::Parameters>], model: &dyn Fn(&[f64], &Src::Parameters) -> (Vec<f64>, f64)) -> Res
where
    D: SmallDim,
    S: SmallDim,
    Src: SourceFunction<f64, D> + Operator<f64, D, SolutionDim = S>,
    Space: VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: TriDimAllocator<f64, D, D, S> + BiDimAllocator<f64, D, S> + BiDimAllocator<f64, D, D>,
{
    let s = S::dim();
    let table = general::<D, _>(rules, data);
    let asm = ElementSourceAssemblerBuilder::new().with_finite_element_space(space).with_source(source).with_quadrature_table(&table).build();
    ensure_eq!(asm.solution_dim(), s);
    ensure_eq!((asm.num_elements(), asm.num_nodes()), (space.num_elements(), space.num_nodes()));
    if elems.is_empty() {
        return Ok(());
    }
    for _ in 0..elems.len() + c.int(0, 3) {
        let i = c.int(0, elems.len() - 1);
        let e = &elems[i];
        let n = e.nodes.len();
        let mut exp = DVector::zeros(s * n);
        let mut tol = 0.0;
        for q in 0..rules[i].1.len() {
            let xi = &rules[i].0[q];
            let phi = e.basis(xi);
            let w = rules[i].1[q] * e.det(xi).abs();
            let (f, size) = model(&e.map(xi), &data[i][q]);
            let pm = phi.iter().fold(0.0, |a: f64, x| a.max(x.abs()));
            tol += 1e-11 * w.abs() * pm * size;
            for a in 0..n {
                for k in 0..s {
                    exp[s * a + k] += w * f[k] * phi[a];
                }
            }
        }
        c.nontrivial_if(exp.amax() > 1e3 * tol && exp.amax() > 0.0);
        let mut out = DVector::from_element(s * n, 1e9);
        asm.assemble_element_vector_into(i, DVectorViewMut::from(&mut out)).map_err(|e| e.to_string())?;
        ensure!((&out - &exp).amax() <= tol, "element {} ({:?}): source vector is {:?}, quadrature sum is {:?}", i, e.kind, out.as_slice(), exp.as_slice());
        let mut low = DVector::from_element(s * n, 1e9);
        let element = ElementInSpace::from_space_and_element_index(space, i);
        let pts: Vec<OPoint<f64, D>> = rules[i].0.iter().map(|p| opoint(p)).collect();
        assemble_element_source_vector(DVectorViewMut::from(&mut low), &element, source, &rules[i].1, &pts, &data[i], &mut vec![7.0; n]);
        ensure!((&low - &exp).amax() <= tol, "element {} ({:?}): assemble_element_source_vector gives {:?}, quadrature sum is {:?}", i, e.kind, low.as_slice(), exp.as_slice());
    }
    Ok(())
}

fn sources<D, Space>(c: &mut Case, space: &Space, elems: &[Elem]) -> Res
where
    D: SmallDim,
    Space: VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: TriDimAllocator<f64, D, D, U1>
        + TriDimAllocator<f64, D, D, U2>
        + TriDimAllocator<f64, D, D, U3>
        + TriDimAllocator<f64, D, D, D>
        + BiDimAllocator<f64, D, U1>
        + BiDimAllocator<f64, D, U2>
        + BiDimAllocator<f64, D, U3>
        + BiDimAllocator<f64, D, D>,
{
    let rules = gen_rules(c, elems);
    note(c, elems, &rules);
    let d = D::dim();
    if c.chance(1, 3) {
        c.class("gravity");
        let g = c.vec(d, |c| c.f64(-10.0, 10.0));
        let unit = c.value_unit();
        let density: Vec<Vec<Density<f64>>> = rules.iter().map(|r| c.vec(r.1.len(), |c| Density(unit * c.f64(0.0, 3.0)))).collect();
        let src = GravitySource::from_acceleration(OVector::<f64, D>::from_column_slice(&g));
        return source_on::<D, D, _, _>(c, space, elems, &rules, &src, &density, &|_, p| (g.iter().map(|x| x * p.0).collect(), 30.0 * p.0));
    }
    let s = c.int(1, 3);
    let unit = c.value_unit();
    let data: Vec<Vec<SourceParams>> = rules
        .iter()
        .map(|r| {
            c.vec(r.1.len(), |c| SourceParams {
                a: c.vec(s, |c| unit * c.f64(-1.0, 1.0)),
                b: c.vec(s, |c| c.vec(d, |c| unit * c.f64(-1.0, 1.0))),
                m: if c.bool() { 0.0 } else { unit * c.f64(-1.0, 1.0) },
            })
        })
        .collect();
    c.note(|| format!("source parameters {:?}", data));
    let model = |x: &[f64], p: &SourceParams| {
        let r = x.iter().fold(0.0, |a: f64, v| a.max(v.abs()));
        (p.eval(x), p.size(r))
    };
    match s {
        1 => source_on::<D, U1, _, _>(c, space, elems, &rules, &TestSource::<U1>(PhantomData), &data, &model),
        2 => source_on::<D, U2, _, _>(c, space, elems, &rules, &TestSource::<U2>(PhantomData), &data, &model),
        _ => source_on::<D, U3, _, _>(c, space, elems, &rules, &TestSource::<U3>(PhantomData), &data, &model),
    }
}

fn mixed(c: &mut Case, mass: bool) -> Res {
    let d = *c.pick(&[1, 2, 3]);
    let (elems, n) = gen_elems(c, d, if d == 3 { 2 } else { 3 }, 5.0, 0.2, false);
    macro_rules! go {
        ($D:ty) => {{
            let space = MixedSpace::<$D>::new(elems, n);
            if mass {
                mass_on::<$D, _>(c, &space, &space.elems)
            } else {
                sources::<$D, _>(c, &space, &space.elems)
            }
        }};
    }
    match d {
        1 => go!(U1),
        2 => go!(U2),
        _ => go!(U3),
    }
}

fn mass(c: &mut Case) -> Res {
    mixed(c, true)
}

fn source(c: &mut Case) -> Res {
    mixed(c, false)
}

/// Arrays of sizes that do not fit together
fn refused(c: &mut Case) -> Res {
    let d = *c.pick(&[1, 2, 3]);
    let (elems, n) = gen_elems(c, d, 3, 5.0, 0.2, false);
    if elems.is_empty() {
        discard!("no elements");
    }
    let rules = gen_rules(c, &elems);
    let i = c.int(0, elems.len() - 1);
    let s = c.int(1, 3);
    macro_rules! go {
        ($D:ty) => {{
            let space = MixedSpace::<$D>::new(elems, n);
            let e = &space.elems[i];
            let k = e.nodes.len();
            let points: Vec<OPoint<f64, $D>> = rules[i].0.iter().map(|p| opoint(p)).collect();
            let m = points.len();
            // weights, points, data, buffer, output rows, output columns of the mass matrix, entries of the source vector
            let good = [m, m, m, k, s * k, s * k, k];
            let mut sizes = good;
            let which = c.int(0, 7);
            if which < 7 {
                sizes[which] = if good[which] > 0 && c.bool() { good[which] - 1 } else { good[which] + 1 };
                c.nontrivial();
            }
            c.note(|| format!("element {:?} with {} quadrature points; weights, points, data, buffer, matrix rows, matrix columns, vector: {:?}", e.kind, m, sizes));
            let w: Vec<f64> = (0..sizes[0]).map(|a| rules[i].1.get(a).copied().unwrap_or(1.0)).collect();
            let x: Vec<OPoint<f64, $D>> = (0..sizes[1]).map(|a| points.get(a).cloned().unwrap_or(OPoint::origin())).collect();
            let element = ElementInSpace::from_space_and_element_index(&space, i);
            let source = TestSource::<U1>(PhantomData);
            let params = SourceParams { a: vec![1.0], b: vec![vec![0.0; d]], m: 0.0 };
            let fits = |used: &[usize]| used.iter().all(|a| sizes[*a] == good[*a]);
            let r = catch(|| assemble_element_mass_matrix(DMatrixViewMut::from(&mut DMatrix::zeros(sizes[4], sizes[5])), &element, &w, &x, &vec![1.0; sizes[2]], s, &mut vec![7.0; sizes[3]]).is_ok());
            ensure!(matches!(r, Ok(true)) == fits(&[0, 1, 2, 3, 4, 5]), "element mass matrix: {:?}", r);
            let r = catch(|| assemble_element_source_vector(DVectorViewMut::from(&mut DVector::zeros(sizes[6])), &element, &source, &w, &x, &vec![params.clone(); sizes[2]], &mut vec![7.0; sizes[3]]));
            ensure!(r.is_ok() == fits(&[0, 1, 2, 3, 6]), "element source vector: {:?}", r);
            // the assemblers
            let density: Vec<Vec<Density<f64>>> = rules.iter().map(|r| vec![Density(1.0); r.1.len()]).collect();
            let table = general::<$D, _>(&rules, &density);
            let asm = ElementMassAssembler::with_solution_dim(s).with_space(&space).with_quadrature_table(&table);
            let r = catch(|| asm.assemble_element_matrix_into(i, DMatrixViewMut::from(&mut DMatrix::zeros(sizes[4], sizes[5]))).is_ok());
            ensure!(matches!(r, Ok(true)) == fits(&[4, 5]), "element matrix of the assembler: {:?}", r);
            let data: Vec<Vec<SourceParams>> = rules.iter().map(|r| vec![params.clone(); r.1.len()]).collect();
            let table = general::<$D, _>(&rules, &data);
            let asm = ElementSourceAssemblerBuilder::new().with_finite_element_space(&space).with_source(&source).with_quadrature_table(&table).build();
            let r = catch(|| asm.assemble_element_vector_into(i, DVectorViewMut::from(&mut DVector::zeros(sizes[6]))).is_ok());
            ensure!(matches!(r, Ok(true)) == fits(&[6]), "element vector of the assembler: {:?}", r);
            Ok(())
        }};
    }
    match d {
        1 => go!(U1),
        2 => go!(U2),
        _ => go!(U3),
    }
}

/// With an exact quadrature, products of polynomials of the space are integrated exactly
fn exact(c: &mut Case) -> Res {
    let kind = *c.pick(&VOLUME);
    // affine elements
    let corners = gen_corners(c, kind, 5.0, 0.0, false);
    let nodes: Vec<usize> = (0..kind.ref_nodes().len()).collect();
    let elem = Elem::new(kind, corners, nodes);
    let shape = Shape::of(kind);
    let space_degree = kind.monomials().iter().map(|m| m.iter().sum::<u32>()).max().unwrap() as usize;
    let (p, q) = (Poly::random(c, &kind.monomials()), Poly::random(c, &kind.monomials()));
    c.note(|| format!("{:?} with corners {:?}, p = {:?}, q = {:?}", kind, elem.corners, p.terms, q.terms));
    let rule = shape.rule(2 * space_degree);
    let rho = c.f64(0.1, 3.0);
    let rules: Rules = vec![(rule.iter().map(|r| r.0.clone()).collect(), rule.iter().map(|r| r.1).collect())];
    let n = elem.nodes.len();
    let refs = kind.ref_nodes();
    let pv = DVector::from_iterator(n, refs.iter().map(|x| p.eval(x)));
    let qv = DVector::from_iterator(n, refs.iter().map(|x| q.eval(x)));
    let det = elem.det(&vec![0.0; kind.rdim()]).abs();
    // the closed form: p q is expanded into monomials, and those are integrated with the independent rule
    let expected = rho * det * shape.integrate(2 * space_degree + 2, |x| p.eval(x) * q.eval(x));
    let tol = 1e-11 * rho * det * shape.measure() * (1.0 + p.size(1.0)) * (1.0 + q.size(1.0));
    let m = {
        macro_rules! go {
            ($D:ty) => {{
                let space = MixedSpace::<$D>::new(vec![elem], n);
                let table = general::<$D, _>(&rules, &[vec![Density(rho); rule.len()]]);
                CsrAssembler::default()
                    .assemble(&ElementMassAssembler::with_solution_dim(1).with_space(&space).with_quadrature_table(&table))
                    .map_err(|e| e.to_string())?
            }};
        }
        if kind.rdim() == 2 {
            go!(U2)
        } else {
            go!(U3)
        }
    };
    let v = pv.dot(&(&m * &qv));
    c.nontrivial_if(expected.abs() > 1e3 * tol);
    ensure!((v - expected).abs() <= tol, "{:?}: the mass matrix gives {} for the integral of rho p q, which is {}", kind, v, expected);
    Ok(())
}

/// Total mass and total force on meshes
fn totals(c: &mut Case) -> Res {
    let kind = *c.pick(&VOLUME);
    let affine = c.bool();
    let g = gen_mesh(c, kind, &MeshOpts { max_cells: if kind.rdim() == 3 { 4 } else { 8 }, empty: true, distort: if affine && !kind.affine() { 0.0 } else { 0.15 }, ..Default::default() });
    let d = kind.rdim();
    c.note(|| format!("{:?} mesh with vertices {:?} and cells {:?}", kind, g.verts, g.cells));
    let rule = Shape::of(kind).rule(4 * kind.order() + 2);
    let uniform = c.bool();
    let rho: Vec<f64> = {
        let r = c.f64(0.1, 2.0);
        g.cells.iter().map(|_| if uniform { r } else { c.f64(0.1, 2.0) }).collect()
    };
    let s = c.int(1, 3);
    let grav = c.vec(d, |c| c.f64(-10.0, 10.0));
    let rules: Rules = g.cells.iter().map(|_| (rule.iter().map(|r| r.0.clone()).collect(), rule.iter().map(|r| r.1).collect())).collect();
    let exact: f64 = (0..g.cells.len()).map(|i| g.cell_measure(i) * rho[i]).sum();
    c.nontrivial_if(g.cells.len() > 1);
    let data: Vec<Vec<Density<f64>>> = rho.iter().map(|r| vec![Density(*r); rule.len()]).collect();
    // linear source
    let lin = SourceParams { a: c.vec(s, |c| c.f64(-1.0, 1.0)), b: c.vec(s, |c| c.vec(d, |c| c.f64(-1.0, 1.0))), m: 0.0 };
    let lin_data: Vec<Vec<SourceParams>> = g.cells.iter().map(|_| vec![lin.clone(); rule.len()]).collect();
    let cells_affine = kind.affine() || affine;
    let mut lin_total = vec![0.0; s];
    let mut lin_size = 0.0;
    for i in 0..g.cells.len() {
        let corners = g.corners(i);
        let center: Vec<f64> = (0..d).map(|k| corners.iter().map(|x| x[k]).sum::<f64>() / corners.len() as f64).collect();
        for (t, f) in lin_total.iter_mut().zip(lin.eval(&center)) {
            *t += f * g.cell_measure(i);
        }
        lin_size += g.cell_measure(i) * lin.size(max_abs(&corners));
    }
    for_volume_kind!(kind, C => {
        let mesh = g.to_mesh::<C>();
        type D<C> = <C as fenris::element::ElementConnectivity<f64>>::GeometryDim;
        let table = general::<D<C>, _>(&rules, &data);
        let m = CsrAssembler::default()
            .assemble(&ElementMassAssembler::with_solution_dim(s).with_space(&mesh).with_quadrature_table(&table))
            .map_err(|e| e.to_string())?;
        let total: f64 = m.values().iter().sum();
        let tol = 1e-10 * exact;
        ensure!((total - s as f64 * exact).abs() <= tol * s as f64, "the entries of the mass matrix sum to {}, expected {} x {}", total, s, exact);
        // the same through a uniform table
        if uniform && !rho.is_empty() {
            let t = UniformQuadratureTable::from_points_and_weights(rule.iter().map(|r| opoint::<D<C>>(&r.0)).collect(), rule.iter().map(|r| r.1).collect()).with_uniform_data(Density(rho[0]));
            let m2 = CsrAssembler::default().assemble(&ElementMassAssembler::with_solution_dim(s).with_space(&mesh).with_quadrature_table(&t)).map_err(|e| e.to_string())?;
            ensure_eq!(m2.pattern(), m.pattern());
            let size = m.values().iter().fold(0.0, |a: f64, x| a.max(x.abs()));
            ensure!(m.values().iter().zip(m2.values()).all(|(a, b)| (a - b).abs() <= 1e-12 * size), "mass matrices through an equivalent uniform table differ");
        }
        let src = GravitySource::from_acceleration(OVector::<f64, D<C>>::from_column_slice(&grav));
        let f = VectorAssembler::default()
            .assemble_vector(&ElementSourceAssemblerBuilder::new().with_finite_element_space(&mesh).with_source(&src).with_quadrature_table(&table).build())
            .map_err(|e| e.to_string())?;
        ensure_eq!(f.len(), d * g.verts.len());
        for k in 0..d {
            let t: f64 = f.iter().skip(k).step_by(d).sum();
            ensure!((t - grav[k] * exact).abs() <= 10.0 * tol, "component {} of the gravity sums to {}, expected {}", k, t, grav[k] * exact);
        }
        if cells_affine {
            c.class("linear source");
            let table = general::<D<C>, _>(&rules, &lin_data);
            macro_rules! go {
                ($S:ty) => {
                    VectorAssembler::default()
                        .assemble_vector(&ElementSourceAssemblerBuilder::new().with_finite_element_space(&mesh).with_source(&TestSource::<$S>(PhantomData)).with_quadrature_table(&table).build())
                        .map_err(|e| e.to_string())?
                };
            }
            let f = match s {
                1 => go!(U1),
                2 => go!(U2),
                _ => go!(U3),
            };
            for k in 0..s {
                let t: f64 = f.iter().skip(k).step_by(s).sum();
                ensure!((t - lin_total[k]).abs() <= 1e-10 * lin_size, "component {} of the linear source sums to {}, expected {}", k, t, lin_total[k]);
            }
        }
    });
    Ok(())
}

/// Meshes with hundreds of cells
fn huge(c: &mut Case) -> Res {
    c.boost = 500;
    totals(c)
}

fn main() {
    pbt::main(Property {
        id: "C13",
        rule: "the exact element matrix/vector is larger than rounding errors (mass, source, exact); at least two cells (totals); one array of a wrong size (refused); huge: the same with meshes of up to a few thousand cells",
        assumptions: &["determinants and node positions of affine/multilinear elements follow the documented reference elements (decided by C09)"],
        clauses: vec![
            clause("mass", 680_000, 6_800_000, mass),
            clause("source", 1_500_000, 15_000_000, source),
            clause("exact", 92_000, 920_000, exact),
            clause("totals", 14_000, 150_000, totals),
            clause("refused", 200_000, 2_000_000, refused),
            clause("huge", 40, 400, huge),
        ],
    })
}
