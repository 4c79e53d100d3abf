//! C16: canonical quadratures.
use fenris::assembly::global::CsrAssembler;
use fenris::assembly::local::*;
use fenris::assembly::operators::LaplaceOperator;
use fenris::nalgebra::{DMatrix, DVector, DefaultAllocator, DimName, OPoint};
use fenris::quadrature::{CanonicalMassQuadrature, CanonicalStiffnessQuadrature, Quadrature, QuadraturePair};
use pbt::elems::*;
use pbt::meshes::*;
use pbt::quad::*;
use pbt::*;

fn pairs<D: DimName>(q: QuadraturePair<f64, D>) -> Vec<(Vec<f64>, f64)>
where
    DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D>,
{
    assert_eq!(q.0.len(), q.1.len());
    q.1.iter().zip(&q.0).map(|(p, w)| (p.iter().copied().collect(), *w)).collect()
}

fn table_rule<D: fenris::SmallDim>(t: &impl QuadratureTable<f64, D>, e: usize) -> Vec<(Vec<f64>, f64)>
where
    DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D>,
{
    let n = t.element_quadrature_size(e);
    let mut w = vec![0.0; n];
    let mut p = vec![OPoint::<f64, D>::origin(); n];
    t.populate_element_quadrature(e, &mut p, &mut w);
    p.iter().zip(w).map(|(p, w)| (p.iter().copied().collect(), w)).collect()
}

/// Rule of an element alone
fn element(c: &mut Case) -> Res {
    let kind = *c.pick(&VOLUME);
    let corners = gen_corners(c, kind, 5.0, 0.0, false);
    let nodes = kind.all_nodes(&corners);
    let (p, q) = (Poly::random(c, &kind.monomials()), Poly::random(c, &kind.monomials()));
    c.note(|| format!("{:?} with corners {:?}, p = {:?}, q = {:?}", kind, corners, p.terms, q.terms));
    let (mass, stiff) = for_volume_kind!(kind, C => {
        use fenris::element::ElementConnectivity;
        let idx: Vec<usize> = (0..nodes.len()).collect();
        let conn = C::from_indices(&idx);
        let verts: Vec<_> = nodes.iter().map(|p| opoint(p)).collect();
        let e = ElementConnectivity::<f64>::element(&conn, &verts).ok_or("no element".to_string())?;
        (pairs(e.canonical_mass_quadrature()), pairs(e.canonical_stiffness_quadrature()))
    });
    let shape = Shape::of(kind);
    let d = kind.rdim();
    let deg = 2 * kind.monomials().iter().map(|m| m.iter().sum::<u32>()).max().unwrap() as usize;
    let j = kind.jacobian(&corners, &vec![0.0; d]);
    let det = j.determinant().abs();
    let inv_t = j.try_inverse().ok_or("singular".to_string())?.transpose();
    let exact = det * shape.integrate(deg, |x| p.eval(x) * q.eval(x));
    let got: f64 = det * mass.iter().map(|(x, w)| w * p.eval(x) * q.eval(x)).sum::<f64>();
    let size = (1.0 + p.size(1.0)) * (1.0 + q.size(1.0)) * det * shape.measure();
    c.nontrivial_if(exact.abs() > 1e-6 * size);
    ensure!((got - exact).abs() <= 1e-11 * size, "{:?}: mass quadrature gives {} for the integral of p q, which is {}", kind, got, exact);
    let grad = |f: &Poly, x: &[f64]| &inv_t * DVector::from_vec(f.grad(x));
    let exact = det * shape.integrate(deg, |x| grad(&p, x).dot(&grad(&q, x)));
    let got: f64 = det * stiff.iter().map(|(x, w)| w * grad(&p, x).dot(&grad(&q, x))).sum::<f64>();
    let size = size * inv_t.norm_squared() * 100.0;
    ensure!((got - exact).abs() <= 1e-11 * size, "{:?}: stiffness quadrature gives {} for the integral of grad p . grad q, which is {}", kind, got, exact);
    Ok(())
}

/// Matrices on affine meshes with the canonical tables of the mesh
fn meshes(c: &mut Case) -> Res {
    let kind = *c.pick(&VOLUME);
    let g = gen_mesh(c, kind, &MeshOpts { max_cells: if kind.rdim() == 3 { 3 } else { 6 }, distort: if kind.affine() { 0.15 } else { 0.0 }, empty: true, ..Default::default() });
    c.note(|| format!("{:?} mesh with vertices {:?} and cells {:?}", kind, g.verts, g.cells));
    c.nontrivial_if(!g.cells.is_empty());
    let shape = Shape::of(kind);
    let deg = 2 * kind.monomials().iter().map(|m| m.iter().sum::<u32>()).max().unwrap() as usize;
    let n = g.verts.len();
    let rule = shape.rule(deg);
    let mut mass = DMatrix::<f64>::zeros(n, n);
    let mut stiff = DMatrix::<f64>::zeros(n, n);
    let refe = kind.reference_element();
    let at: Vec<(Vec<f64>, DMatrix<f64>)> = rule.iter().map(|(x, _)| (refe.basis(x), refe.gradients(x))).collect();
    for (i, cell) in g.cells.iter().enumerate() {
        let corners = g.corners(i);
        let j = kind.jacobian(&corners, &vec![0.0; kind.rdim()]);
        let det = j.determinant().abs();
        let inv_t = j.try_inverse().ok_or("singular".to_string())?.transpose();
        for ((_, w), (phi, grad)) in rule.iter().zip(&at) {
            let grad = &inv_t * grad;
            for a in 0..cell.len() {
                for b in 0..cell.len() {
                    mass[(cell[a], cell[b])] += w * det * phi[a] * phi[b];
                    stiff[(cell[a], cell[b])] += w * det * grad.column(a).dot(&grad.column(b));
                }
            }
        }
    }
    for_volume_kind!(kind, C => {
        let mesh = g.to_mesh::<C>();
        let mt = mesh.canonical_mass_quadrature();
        let st = mesh.canonical_stiffness_quadrature();
        if !g.cells.is_empty() {
            let i = c.int(0, g.cells.len() - 1);
            use fenris::element::ElementConnectivity;
            let e = ElementConnectivity::<f64>::element(&mesh.connectivity()[i], mesh.vertices()).ok_or("no element".to_string())?;
            let (em, es) = (e.canonical_mass_quadrature(), e.canonical_stiffness_quadrature());
            ensure_eq!(em.weights().len(), em.points().len());
            ensure_eq!(table_rule(&mt, i), pairs(em), "mass rule of the mesh and of its element {}", i);
            ensure_eq!(table_rule(&st, i), pairs(es), "stiffness rule of the mesh and of its element {}", i);
        }
        let mt = mt.with_uniform_data(Density(1.0));
        let m = CsrAssembler::default().assemble(&ElementMassAssembler::with_solution_dim(1).with_space(&mesh).with_quadrature_table(&mt)).map_err(|e| e.to_string())?;
        let u = DVector::zeros(n);
        let k = CsrAssembler::default()
            .assemble(&ElementEllipticAssemblerBuilder::new().with_finite_element_space(&mesh).with_operator(&LaplaceOperator).with_quadrature_table(&st).with_u(&u).build())
            .map_err(|e| e.to_string())?;
        for (label, got, exact) in [("mass", m, mass), ("stiffness", k, stiff)] {
            let size = exact.iter().fold(0.0, |a: f64, x| a.max(x.abs()));
            let mut dense = DMatrix::<f64>::zeros(n, n);
            for (i, j, v) in got.triplet_iter() {
                dense[(i, j)] += v;
            }
            let worst = (&dense - &exact).iter().fold(0.0, |a: f64, x| a.max(x.abs()));
            ensure!(worst <= 1e-10 * size, "{:?}: {} matrix with the canonical quadrature differs from the exact one by {} (entries up to {})", kind, label, worst, size);
        }
    });
    Ok(())
}

/// Meshes with hundreds of cells
fn huge(c: &mut Case) -> Res {
    c.boost = 1000;
    meshes(c)
}

fn main() {
    pbt::main(Property {
        id: "C16",
        rule: "the exact integral is not small (element); at least one cell (meshes); huge: the same with meshes of up to a few thousand cells",
        assumptions: &["basis functions span the documented spaces (decided by C08)"],
        clauses: vec![clause("element", 88_000, 880_000, element), clause("meshes", 38_000, 380_000, meshes), clause("huge", 25, 250, huge)],
    })
}
