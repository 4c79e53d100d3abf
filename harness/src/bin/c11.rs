//! C11: interpolation at arbitrary points, directly and precomputed.
use fenris::allocators::{BiDimAllocator, TriDimAllocator};
use fenris::connectivity::*;
use fenris::nalgebra::{DMatrix, DVector, DVectorView, DefaultAllocator, DimName, OMatrix, OPoint, OVector, U1, U2, U3};
use fenris::space::*;
use fenris::SmallDim;
use pbt::elems::*;
use pbt::meshes::*;
use pbt::spaces::*;
use pbt::*;

/// values: one vector per point, gradients: one d x s matrix per point
type Out = (Vec<Vec<f64>>, Vec<DMatrix<f64>>);

fn vals<S: DimName>(v: Vec<OVector<f64, S>>) -> Vec<Vec<f64>>
where
    DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, S>,
{
    v.iter().map(|x| x.iter().copied().collect()).collect()
}

fn grads<D: DimName, S: DimName>(v: Vec<OMatrix<f64, D, S>>) -> Vec<DMatrix<f64>>
where
    DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D, S>,
{
    v.iter().map(|x| DMatrix::from_fn(x.nrows(), x.ncols(), |i, j| x[(i, j)])).collect()
}

fn close_v(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol)
}

fn close_m(a: &DMatrix<f64>, b: &DMatrix<f64>, tol: f64) -> bool {
    a.shape() == b.shape() && (a - b).iter().all(|x| x.abs() <= tol)
}

/// Interpolators built in all ways agree with each other; returns their values and gradients
fn precomputed<D, S, Space>(c: &mut Case, space: &Space, points: &[OPoint<f64, D>], u: &DVector<f64>, expect: &Out, tol: (f64, f64)) -> Res
where
    D: SmallDim,
    S: SmallDim,
    Space: FindClosestElement<f64, GeometryDim = D, ReferenceDim = D> + Sync,
    DefaultAllocator: TriDimAllocator<f64, D, D, S> + BiDimAllocator<f64, D, S>,
    OPoint<f64, D>: Send + Sync,
{
    use ValuesOrGradients::*;
    let par = c.bool();
    for what in [Both, OnlyValues, OnlyGradients] {
        let f = if par { FixedInterpolator::from_space_and_points_par(space, points, what) } else { FixedInterpolator::from_space_and_points(space, points, what) };
        let label = format!("{}{:?}", if par { "parallel " } else { "" }, what);
        if what != OnlyGradients {
            let v = vals(f.interpolate::<S>(u));
            ensure!(v.len() == points.len(), "{}: {} values for {} points", label, v.len(), points.len());
            for i in 0..v.len() {
                ensure!(close_v(&v[i], &expect.0[i], tol.0), "precomputed ({}) value {} is {:?}, expected {:?}", label, i, v[i], expect.0[i]);
            }
            let mut buf = vec![OVector::<f64, S>::from_element(7.0); points.len()];
            f.interpolate_into(&mut buf, u);
            ensure!(vals(buf) == v, "interpolate_into differs from interpolate");
        } else if !points.is_empty() {
            ensure!(catch(|| f.interpolate::<S>(u)).is_err(), "{}: values are not refused", label);
        }
        if what != OnlyValues {
            let g = grads(f.interpolate_gradients::<D, S>(u));
            ensure!(g.len() == points.len(), "{}: {} gradients for {} points", label, g.len(), points.len());
            for i in 0..g.len() {
                ensure!(close_m(&g[i], &expect.1[i], tol.1), "precomputed ({}) gradient {} is {:?}, expected {:?}", label, i, g[i], expect.1[i]);
            }
            let mut buf = vec![OMatrix::<f64, D, S>::from_element(7.0); points.len()];
            f.interpolate_gradients_into(&mut buf, u);
            ensure!(grads(buf) == g, "interpolate_gradients_into differs from interpolate_gradients");
        } else if !points.is_empty() {
            ensure!(catch(|| f.interpolate_gradients::<D, S>(u)).is_err(), "{}: gradients are not refused", label);
        }
    }
    if !points.is_empty() && u.len() >= S::dim() && space.num_elements() > 0 {
        // a weight vector that does not cover the referenced nodes is refused
        let f = FixedInterpolator::from_space_and_points(space, points, Both);
        let mut needed = 0;
        for p in points {
            let (e, _) = space.find_closest_element_and_reference_coords(p).unwrap();
            let mut nodes = vec![0; space.element_node_count(e)];
            space.populate_element_nodes(&mut nodes, e);
            needed = needed.max(nodes.iter().max().unwrap() + 1);
        }
        let short = DVector::from_element(needed * S::dim() - 1, 1.0);
        ensure!(catch(|| f.interpolate::<S>(&short)).is_err(), "interpolation with {} weights, {} needed", short.len(), needed * S::dim());
        let short = DVector::from_element((needed - 1) * S::dim(), 1.0);
        ensure!(catch(|| f.interpolate_gradients::<D, S>(&short)).is_err(), "gradient interpolation with {} weights, {} needed", short.len(), needed * S::dim());
        let enough = u.rows(0, needed * S::dim()).clone_owned();
        ensure!(f.interpolate::<S>(&enough) == f.interpolate::<S>(u), "weights of other nodes change the result");
    }
    Ok(())
}

fn located_in<D, S>(c: &mut Case) -> Res
where
    D: SmallDim,
    S: SmallDim,
    DefaultAllocator: TriDimAllocator<f64, D, D, S> + BiDimAllocator<f64, D, S>,
    OPoint<f64, D>: Send + Sync,
{
    let (d, s) = (D::dim(), S::dim());
    let (elems, n) = gen_elems(c, d, 4, 10.0, 0.2, false);
    let mut space = MixedSpace::<D>::new(elems, n);
    let affine_reproduction = !space.elems.is_empty() && c.bool();
    let unit = c.value_unit();
    let mut u = DVector::from_fn(n * s, |_, _| unit * c.sint(-9, 9) as f64);
    let mut queries = vec![];
    let k = if space.elems.is_empty() { 0 } else { c.int(0, 6) };
    let mut special = None;
    if affine_reproduction {
        // a polynomial of the space of one element, given at its nodes
        let i = c.int(0, space.elems.len() - 1);
        let e = &space.elems[i];
        let mons = e.kind.monomials();
        let polys: Vec<Poly> = (0..s).map(|_| Poly::random(c, &mons)).collect();
        let refs = e.kind.ref_nodes();
        for (a, node) in e.nodes.iter().enumerate() {
            for q in 0..s {
                u[node * s + q] = unit * polys[q].eval(&refs[a]);
            }
        }
        special = Some((i, polys));
    }
    for _ in 0..k {
        let i = match special {
            Some((i, _)) if c.bool() => i,
            _ => c.int(0, space.elems.len() - 1),
        };
        let xi = space.elems[i].kind.ref_point(c);
        let x = space.elems[i].map(&xi);
        if !space.located.iter().any(|q| q.0 == x) {
            space.located.push((x.clone(), i, xi.clone()));
            queries.push((x, i, xi));
        } else if c.bool() {
            let q = space.located.iter().find(|q| q.0 == x).unwrap().clone();
            queries.push(q);
        }
    }
    c.note(|| format!("elements {:?} weights {:?} queries {:?}", space.elems.iter().map(|e| (e.kind, &e.corners, &e.nodes)).collect::<Vec<_>>(), u.as_slice(), queries));
    c.nontrivial_if(queries.len() > 1 && space.elems.len() > 1);
    c.class_if(queries.is_empty(), "no points");
    c.class_if(queries.windows(2).any(|w| space.elems[w[0].1].kind != space.elems[w[1].1].kind), "different element types in a row");
    // expected
    let mut expect: Out = (vec![], vec![]);
    let mut gmax: f64 = 1e-300;
    for (_, i, xi) in &queries {
        let e = &space.elems[*i];
        let (phi, g) = (e.basis(xi), e.physical_gradients(xi));
        expect.0.push((0..s).map(|q| phi.iter().zip(&e.nodes).map(|(p, n)| p * u[n * s + q]).sum()).collect());
        expect.1.push(DMatrix::from_fn(d, s, |a, q| (0..phi.len()).map(|b| g[(a, b)] * u[e.nodes[b] * s + q]).sum()));
        gmax = gmax.max(g.norm());
    }
    let umax = unit + u.amax();
    let (tv, tg) = (1e-11 * umax, 1e-10 * umax * gmax);
    if let Some((i, polys)) = &special {
        for (p, q) in queries.iter().enumerate().filter(|(_, q)| q.1 == *i) {
            let v: Vec<f64> = polys.iter().map(|f| unit * f.eval(&q.2)).collect();
            ensure!(close_v(&v, &expect.0[p], 1e-10 * umax), "harness: polynomial is not reproduced");
        }
    }
    let points: Vec<OPoint<f64, D>> = queries.iter().map(|q| opoint(&q.0)).collect();
    // on demand
    let mut v = vec![OVector::<f64, S>::from_element(3.0); points.len()];
    interpolate_at_points(&space, &points, DVectorView::from(&u), &mut v);
    let v = vals(v);
    let mut g = vec![OMatrix::<f64, D, S>::from_element(3.0); points.len()];
    interpolate_gradient_at_points(&space, &points, DVectorView::from(&u), &mut g);
    let g = grads(g);
    for i in 0..points.len() {
        ensure!(close_v(&v[i], &expect.0[i], tv), "value at point {} is {:?}, expected {:?}", i, v[i], expect.0[i]);
        ensure!(close_m(&g[i], &expect.1[i], tg), "gradient at point {} is {:?}, expected {:?}", i, g[i], expect.1[i]);
        let mut one = [OVector::<f64, S>::from_element(3.0)];
        interpolate_at_points(&space, &points[i..i + 1], DVectorView::from(&u), &mut one);
        ensure!(close_v(one[0].as_slice(), &v[i], 1e-13 * umax), "value at point {} depends on the batch: {:?} or {:?}", i, one[0], v[i]);
        let mut one = [OMatrix::<f64, D, S>::from_element(3.0)];
        interpolate_gradient_at_points(&space, &points[i..i + 1], DVectorView::from(&u), &mut one);
        ensure!(close_m(&grads(one.to_vec())[0], &g[i], 1e-12 * umax * gmax), "gradient at point {} depends on the batch", i);
    }
    precomputed::<D, S, _>(c, &space, &points, &u, &expect, (tv, tg))
}

/// Every element type, in spaces of mixed types, through point location answered by the harness
fn located(c: &mut Case) -> Res {
    match c.int(0, 5) {
        0 => located_in::<U2, U1>(c),
        1 => located_in::<U2, U2>(c),
        2 => located_in::<U2, U3>(c),
        3 => located_in::<U3, U1>(c),
        4 => located_in::<U3, U3>(c),
        _ => located_in::<U3, U2>(c),
    }
}

/// Values and gradients at points of (or near) a mesh with a spatial index
fn spatial_in<C, S>(c: &mut Case, kind: Kind, huge: bool) -> Res
where
    C: fenris::element::ElementConnectivity<f64, ReferenceDim = <C as fenris::element::ElementConnectivity<f64>>::GeometryDim> + FromIndices,
    C::Element: fenris::element::ClosestPointInElement<f64> + fenris::element::BoundsForElement<f64>,
    C: Sync + Clone,
    C::GeometryDim: SmallDim,
    S: SmallDim,
    DefaultAllocator: TriDimAllocator<f64, C::GeometryDim, C::GeometryDim, S> + BiDimAllocator<f64, C::GeometryDim, S>,
    OPoint<f64, C::GeometryDim>: Send + Sync,
    fenris::mesh::Mesh<f64, C::GeometryDim, C>: BoundsForElementInSpace<f64> + ClosestPointInElementInSpace<f64> + FiniteElementSpace<f64, GeometryDim = C::GeometryDim, ReferenceDim = C::GeometryDim> + Sync,
{
    let (d, s) = (C::GeometryDim::dim(), S::dim());
    // the function is continuous only without cracks
    let small = MeshOpts { empty: true, cracks: false, ..Default::default() };
    let o = if huge { MeshOpts { max_cells: 1001 + c.size(3000), ..Default::default() } } else { small };
    let m = gen_mesh(c, kind, &o);
    let space = SpatiallyIndexed::from_space(m.to_mesh::<C>());
    let n = m.verts.len();
    let size = max_abs(&m.verts).max(1e-300);
    // a linear function half of the time
    let linear = huge || c.bool();
    let unit = c.value_unit();
    let coef = DMatrix::from_fn(s, d + 1, |_, _| unit * c.sint(-5, 5) as f64);
    let lin = |x: &[f64], q: usize| coef[(q, d)] + (0..d).map(|k| coef[(q, k)] * x[k] / size).sum::<f64>();
    let mut u = DVector::zeros(n * s);
    for i in 0..n {
        for q in 0..s {
            u[i * s + q] = if linear { lin(&m.verts[i], q) } else { unit * c.sint(-9, 9) as f64 };
        }
    }
    let count = if huge { c.size(1500) } else { c.int(0, 6) };
    let queries: Vec<(Vec<f64>, Option<(usize, Vec<f64>)>)> = (0..count)
        .map(|_| {
            if m.cells.is_empty() || !huge && c.chance(1, 5) {
                ((0..d).map(|_| size * c.coord(2.0)).collect(), None)
            } else {
                let i = c.int(0, m.cells.len() - 1);
                let xi = kind.ref_point(c);
                (kind.map(&m.corners(i), &xi), Some((i, xi)))
            }
        })
        .collect();
    c.note(|| if huge { format!("{:?} mesh with {} vertices and {} cells, {} points", kind, m.verts.len(), m.cells.len(), queries.len()) } else { format!("{:?} vertices {:?} cells {:?} weights {:?} queries {:?}", kind, m.verts, m.cells, u.as_slice(), queries) });
    c.class_if(m.cells.is_empty(), "no elements");
    c.class_if(queries.iter().any(|q| q.1.is_none()), "point anywhere");
    c.class_if(linear, "linear function");
    c.nontrivial_if(m.cells.len() > 1 && queries.iter().any(|q| q.1.is_some()));
    let points: Vec<OPoint<f64, C::GeometryDim>> = queries.iter().map(|q| opoint(&q.0)).collect();
    let view = DVectorView::from(&u);
    // buffers of the caller, with something in them, or new ones
    let (v, g) = if c.bool() {
        let mut v = vec![OVector::<f64, S>::from_element(3.0); points.len()];
        space.interpolate_at_points_into(&points, view.clone(), &mut v);
        let mut g = vec![OMatrix::<f64, C::GeometryDim, S>::from_element(3.0); points.len()];
        space.interpolate_gradient_at_points_into(&points, view.clone(), &mut g);
        (v, g)
    } else {
        (space.interpolate_at_points(&points, view.clone()), space.interpolate_gradient_at_points(&points, view.clone()))
    };
    let (v, g) = (vals(v), grads(g));
    let umax = unit + u.amax();
    let mut gmax: f64 = 0.0;
    for i in 0..points.len() {
        let (x, origin) = &queries[i];
        let one: OVector<f64, S> = space.interpolate_at_point(&points[i], view.clone());
        ensure!(close_v(one.as_slice(), &v[i], 1e-13 * umax), "value at point {} depends on the batch: {:?} or {:?}", i, one, v[i]);
        let one: OMatrix<f64, C::GeometryDim, S> = space.interpolate_gradient_at_point(&points[i], view.clone());
        ensure!(close_m(&grads(vec![one])[0], &g[i], 1e-12 * (g[i].amax() + umax / size)), "gradient at point {} depends on the batch", i);
        if m.cells.is_empty() {
            ensure!(v[i].iter().all(|x| *x == 0.0) && g[i].iter().all(|x| *x == 0.0), "space without elements: value {:?}", v[i]);
            continue;
        }
        // elements that contain the point, or, outside, the element found by point location
        let (found, fxi) = space.find_closest_element_and_reference_coords(&points[i]).ok_or("no closest element".to_string())?;
        let fxi: Vec<f64> = fxi.iter().copied().collect();
        let mut containing = vec![];
        if huge {
            ok_gradient(&mut gmax, d, &m, found, kind);
        } else if origin.is_some() {
            for j in 0..m.cells.len() {
                if dist_to_simplex(x, &m.corners(j)) <= 1e-9 * size {
                    containing.push(j);
                }
            }
        } else {
            containing.push(found);
        }
        let mut ok_g = huge;
        let mut seen = vec![];
        for j in &containing {
            let e = Elem::new(kind, m.corners(*j), m.cells[*j].clone());
            let jac = kind.jacobian(&e.corners, &vec![0.0; d]);
            let xi: Vec<f64> = if origin.is_some() {
                let o = e.map(&vec![0.0; d]);
                let b = DVector::from_fn(d, |k, _| x[k] - o[k]);
                jac.lu().solve(&b).ok_or("regular".to_string())?.iter().copied().collect()
            } else {
                fxi.clone()
            };
            let (phi, pg) = (e.basis(&xi), e.physical_gradients(&xi));
            gmax = gmax.max(pg.norm());
            let ev: Vec<f64> = (0..s).map(|q| phi.iter().zip(&e.nodes).map(|(p, n)| p * u[n * s + q]).sum()).collect();
            let eg = DMatrix::from_fn(d, s, |a, q| (0..phi.len()).map(|b| pg[(a, b)] * u[e.nodes[b] * s + q]).sum());
            // the function is continuous: every element that contains the point gives the same value
            ensure!(close_v(&v[i], &ev, 1e-7 * umax), "value at {:?} is {:?}, element {} has {:?}", x, v[i], j, ev);
            ok_g |= close_m(&g[i], &eg, 1e-9 * umax * pg.norm());
            seen.push(eg);
        }
        ensure!(ok_g, "gradient at {:?} is {:?}, the elements there have {:?}", x, g[i], seen);
        if linear && origin.is_some() {
            let e: Vec<f64> = (0..s).map(|q| lin(x, q)).collect();
            ensure!(close_v(&v[i], &e, 1e-10 * umax), "linear function at {:?}: {:?}, expected {:?}", x, v[i], e);
            let e = DMatrix::from_fn(d, s, |k, q| coef[(q, k)] / size);
            ensure!(close_m(&g[i], &e, 1e-10 * umax * gmax), "gradient of a linear function at {:?}: {:?}, expected {:?}", x, g[i], e);
        }
    }
    precomputed::<C::GeometryDim, S, _>(c, &space, &points, &u, &(v, g), (1e-12 * umax, 1e-12 * umax * gmax))
}

/// Raises the bound on the basis gradients to those of the element
fn ok_gradient(gmax: &mut f64, d: usize, m: &GMesh, cell: usize, kind: Kind) {
    let e = Elem::new(kind, m.corners(cell), m.cells[cell].clone());
    *gmax = gmax.max(e.physical_gradients(&vec![0.2; d]).norm());
}

fn spatial_or_huge(c: &mut Case, huge: bool) -> Res {
    match c.int(0, 3) {
        0 => spatial_in::<Tri3d2Connectivity, U1>(c, Kind::Tri3, huge),
        1 => spatial_in::<Tri3d2Connectivity, U2>(c, Kind::Tri3, huge),
        2 => spatial_in::<Tet4Connectivity, U1>(c, Kind::Tet4, huge),
        _ => spatial_in::<Tet4Connectivity, U3>(c, Kind::Tet4, huge),
    }
}

fn spatial(c: &mut Case) -> Res {
    spatial_or_huge(c, false)
}

/// Linear functions at hundreds of points of meshes with hundreds of elements
fn huge(c: &mut Case) -> Res {
    spatial_or_huge(c, true)
}

/// Interpolators from given values: exact comparison with the explicit sum
fn compressed(c: &mut Case) -> Res {
    let n = c.int(1, 8);
    let points = c.int(0, 6);
    let mut offsets = vec![0];
    let mut idx = vec![];
    for _ in 0..points {
        let k = c.int(0, 5);
        for _ in 0..k {
            idx.push(c.int(0, n - 1));
        }
        offsets.push(idx.len());
    }
    let w: Vec<f64> = idx.iter().map(|_| c.sint(-9, 9) as f64).collect();
    let g: Vec<f64> = (0..2 * idx.len()).map(|_| c.sint(-9, 9) as f64).collect();
    let unit = c.value_unit();
    let u = DVector::from_fn(n * 2, |_, _| unit * c.sint(-9, 9) as f64);
    c.note(|| format!("offsets {:?} nodes {:?} values {:?} gradients {:?} u {:?}", offsets, idx, w, g, u.as_slice()));
    c.nontrivial_if(points > 1 && idx.len() > 1);
    let f = FixedInterpolator::from_compressed_values(Some(w.clone()), Some(g.clone()), idx.clone(), offsets.clone());
    let v = vals(f.interpolate::<U2>(&u));
    let gr = grads(f.interpolate_gradients::<U2, U2>(&u));
    ensure!(v.len() == points && gr.len() == points, "{} values, {} gradients for {} points", v.len(), gr.len(), points);
    for i in 0..points {
        let mut ev = vec![0.0; 2];
        let mut eg = DMatrix::zeros(2, 2);
        for k in offsets[i]..offsets[i + 1] {
            for q in 0..2 {
                ev[q] += w[k] * u[2 * idx[k] + q];
                for a in 0..2 {
                    eg[(a, q)] += g[2 * k + a] * u[2 * idx[k] + q];
                }
            }
        }
        ensure!(v[i] == ev, "value {} is {:?}, expected {:?}", i, v[i], ev);
        ensure!(gr[i] == eg, "gradient {} is {:?}, expected {:?}", i, gr[i], eg);
    }
    // serialization keeps everything
    let back: FixedInterpolator<f64> = serde_json::from_str(&serde_json::to_string(&f).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    ensure!(back == f, "interpolator changes when serialized and deserialized");
    // inconsistent data is refused
    let mut bad = offsets.clone();
    let k = c.int(0, bad.len() - 1);
    bad[k] = idx.len() + 1 + c.int(0, 3);
    ensure!(catch(|| FixedInterpolator::from_compressed_values(Some(w.clone()), None, idx.clone(), bad.clone())).is_err(), "offsets {:?} accepted for {} nodes", bad, idx.len());
    let mut long = w.clone();
    long.push(1.0);
    ensure!(catch(|| FixedInterpolator::from_compressed_values(Some(long), None, idx.clone(), offsets.clone())).is_err(), "too many values accepted");
    let mut long = g.clone();
    long.push(1.0);
    ensure!(catch(|| FixedInterpolator::from_compressed_values(None, Some(long), idx.clone(), offsets.clone())).is_err() || idx.len() == 1, "too many gradients accepted");
    // results that do not fit, weights that are missing and data that was not computed are refused
    if c.chance(1, 4) {
        let wrong = if points > 0 && c.bool() { points - 1 } else { points + c.int(1, 2) };
        ensure!(catch(|| f.interpolate_into(&mut vec![nalgebra::Vector2::new(7.0, 7.0); wrong], &u)).is_err(), "{} values for {} points are accepted", wrong, points);
        ensure!(catch(|| f.interpolate_gradients_into(&mut vec![nalgebra::Matrix2::repeat(7.0); wrong], &u)).is_err(), "{} gradients for {} points are accepted", wrong, points);
        if let Some(m) = idx.iter().max() {
            let short = u.rows(0, 2 * m + c.int(0, 1)).into_owned();
            ensure!(catch(|| f.interpolate::<U2>(&short)).is_err(), "{} weights are accepted for node {}", short.len(), m);
            ensure!(catch(|| f.interpolate_gradients::<U2, U2>(&short)).is_err(), "{} weights are accepted for the gradients at node {}", short.len(), m);
        }
        let values = FixedInterpolator::from_compressed_values(Some(w.clone()), None, idx.clone(), offsets.clone());
        let gradients = FixedInterpolator::from_compressed_values(None, Some(g.clone()), idx.clone(), offsets.clone());
        ensure_eq!(vals(values.interpolate::<U2>(&u)), v, "values without gradients");
        ensure_eq!(grads(gradients.interpolate_gradients::<U2, U2>(&u)), gr, "gradients without values");
        ensure!(catch(|| values.interpolate_gradients::<U2, U2>(&u)).is_err(), "gradients are interpolated without gradients");
        ensure!(catch(|| gradients.interpolate::<U2>(&u)).is_err(), "values are interpolated without values");
        // what the result contains before does not matter
        let mut r = vec![nalgebra::Vector2::new(7.0, -7.0); points];
        values.interpolate_into(&mut r, &u);
        ensure_eq!(vals(r), v, "values in a used buffer");
        let mut r = vec![nalgebra::Matrix2::repeat(7.0); points];
        gradients.interpolate_gradients_into(&mut r, &u);
        ensure_eq!(grads(r), gr, "gradients in a used buffer");
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C11",
        rule: "spaces of up to 4 elements of mixed types with arbitrary shared nodes (point location answered by the harness), meshes of triangles and tetrahedra with spatial index (holes, unused vertices, no elements), weights random or from a polynomial of the space, solution dimension 1 to 3, 0 to 6 points inside, on shared faces, at vertices and (with index) outside; interpolators from explicit sparse data. Non-trivial: at least two elements and a point of the domain (mixed: two points; compressed: two points and weights). huge: linear functions on meshes with up to 4000 cells, at up to 1500 points.",
        assumptions: &["basis functions and their reference gradients come from the library (decided by C08), Jacobians from the harness"],
        clauses: vec![clause("located", 360_000, 3_600_000, located), clause("spatial", 110_000, 1_100_000, spatial), clause("compressed", 750_000, 7_500_000, compressed), clause("huge", 500, 5_000, huge)],
    })
}
