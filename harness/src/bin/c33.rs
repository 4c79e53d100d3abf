//! C33: buffers and moving data around.
use fenris::assembly::buffers::{BasisFunctionBuffer, BufferUpdate, InterpolationBuffer};
use fenris::assembly::global::{add_local_to_global, gather_global_to_local};
use fenris::nalgebra::*;
use fenris::space::FiniteElementSpace;
use fenris::util::*;
use fenris_geometry::util::slices_are_equal_shift_invariant;
use pbt::elems::*;
use pbt::spaces::*;
use pbt::*;

// ---- data

fn values(c: &mut Case, n: usize) -> Vec<f64> {
    if n > 1000 {
        let mut d = c.dice();
        let unit = c.value_unit();
        return (0..n).map(|_| unit * d.sint(-1000, 1000) as f64).collect();
    }
    let unit = c.value_unit();
    c.vec(n, |c| unit * c.sint(-1000, 1000) as f64)
}

fn gather(c: &mut Case) -> Res {
    let s = c.int(1, 3);
    let n = if c.boost > 0 { c.size(c.boost).max(1) } else { c.int(1, 10) };
    let k = if c.boost > 0 { c.size(600) } else { c.int(0, 8) };
    let idx = if c.bool() || k > n { c.vec(k, |c| c.int(0, n - 1)) } else { c.distinct(k, n) };
    let u = values(c, s * n);
    let base = values(c, s * n);
    let bad = c.chance(1, 6);
    c.note_debug("values, indices, dimension", &(&u, &idx, s));
    c.nontrivial_if(k > 1);
    c.class_if(bad, "invalid");
    let want: Vec<f64> = idx.iter().flat_map(|i| u[s * i..s * i + s].to_vec()).collect();
    if bad {
        // an index that does not exist, or a vector that does not fit
        let mut idx = idx;
        let mut len = s * k;
        if idx.is_empty() || c.bool() {
            let more = c.int(1, 3);
            len += more;
        } else {
            let at = c.int(0, k - 1);
            let far = c.int(0, 3);
            idx[at] = n + far;
            let u = u.clone();
            let idx = idx.clone();
            ensure!(
                catch(move || match s {
                    1 => extract_by_node_index::<f64, U1>(&u, &idx),
                    2 => extract_by_node_index::<f64, U2>(&u, &idx),
                    _ => extract_by_node_index::<f64, U3>(&u, &idx),
                })
                .is_err(),
                "an index out of range is accepted by extract_by_node_index"
            );
        }
        let (u, idx) = (DVector::from_vec(u), idx);
        let g = u.clone();
        let i2 = idx.clone();
        ensure!(
            catch(move || {
                let mut local = DVector::zeros(len);
                gather_global_to_local(&g, &mut local, &i2, s)
            })
            .is_err(),
            "gather_global_to_local accepts indices {:?} for {} values",
            idx,
            len
        );
        let i2 = idx.clone();
        ensure!(
            catch(move || {
                let mut global = u;
                add_local_to_global(&DVector::from_element(len, 1.0), &mut global, &i2, s)
            })
            .is_err(),
            "add_local_to_global accepts indices {:?} for {} values",
            idx,
            len
        );
        return Ok(());
    }
    let got = match s {
        1 => extract_by_node_index::<f64, U1>(&u, &idx),
        2 => extract_by_node_index::<f64, U2>(&u, &idx),
        _ => extract_by_node_index::<f64, U3>(&u, &idx),
    };
    ensure!(got.as_slice() == &want[..], "extract_by_node_index: {:?}, expected {:?}", got.as_slice(), want);
    let mut local = DVector::from_element(s * k, f64::NAN);
    let u2 = DVector::from_vec(u);
    gather_global_to_local(&u2, &mut local, &idx, s);
    ensure!(local.as_slice() == &want[..], "gather_global_to_local: {:?}, expected {:?}", local.as_slice(), want);
    // the same through a connectivity
    macro_rules! through {
        ($C:ident, $k:expr) => {
            if k >= $k {
                let mut ix = [0; $k];
                ix.copy_from_slice(&idx[..$k]);
                let conn = fenris::connectivity::$C(ix);
                macro_rules! dim {
                    ($S:ty) => {{
                        let mut m = OMatrix::<f64, $S, Dyn>::from_element($k, f64::NAN);
                        fenris::element::ElementConnectivity::<f64>::populate_element_variables::<$S>(&conn, nalgebra::MatrixViewMut::from(&mut m), &u2);
                        ensure!(m.as_slice() == &want[..s * $k], "populate_element_variables of {:?}: {:?}, expected {:?}", conn, m, want);
                    }};
                }
                match s {
                    1 => dim!(U1),
                    2 => dim!(U2),
                    _ => dim!(U3),
                }
            }
        };
    }
    through!(Segment2d2Connectivity, 2);
    through!(Tri3d2Connectivity, 3);
    through!(Quad4d2Connectivity, 4);
    through!(Hex8Connectivity, 8);
    let mut global = DVector::from_vec(base.clone());
    add_local_to_global(&local, &mut global, &idx, s);
    let mut sum = base;
    for (a, i) in idx.iter().enumerate() {
        for d in 0..s {
            sum[s * i + d] += want[s * a + d];
        }
    }
    ensure!(global.as_slice() == &sum[..], "add_local_to_global: {:?}, expected {:?}", global.as_slice(), sum);
    Ok(())
}

fn views(c: &mut Case) -> Res {
    let n = c.int(1, 5);
    let m = c.int(1, 5);
    let mut a = DMatrix::from_vec(n, m, values(c, n * m));
    c.note_debug("matrix", &a);
    c.nontrivial_if(n * m > 1);
    let before = a.clone();
    let v = coerce_col_major_slice(&a, Dyn(n), Dyn(m));
    ensure!(v == before, "view {}, expected {}", v, before);
    let k = c.int(0, n * m - 1);
    let (i, j) = (k % n, k / n);
    coerce_col_major_slice_mut(&mut a, Dyn(n), Dyn(m))[(i, j)] = 5000.0;
    let mut want = before.clone();
    want[(i, j)] = 5000.0;
    ensure!(a == want, "after writing to ({}, {}): {}, expected {}", i, j, a, want);
    // fixed sizes
    let f = Matrix2x3::from_fn(|i, j| before[(i % n, j % m)]);
    let v = coerce_col_major_slice(&f, Dyn(2), Dyn(3));
    ensure!((0..2).all(|i| (0..3).all(|j| v[(i, j)] == f[(i, j)])), "view {} of {}", v, f);
    if n == 2 && m == 3 {
        let v = coerce_col_major_slice(&before, Const::<2>, Const::<3>);
        ensure!((0..2).all(|i| (0..3).all(|j| v[(i, j)] == before[(i, j)])), "view {} of {}", v, before);
    }
    // parts of a matrix: the columns are apart unless they are complete
    let r0 = c.int(0, n - 1);
    let rows = c.int(1, n - r0);
    let c0 = c.int(0, m - 1);
    let cols = c.int(1, m - c0);
    let part = before.view((r0, c0), (rows, cols));
    let r = catch(|| coerce_col_major_slice(&part, Dyn(rows), Dyn(cols)).into_owned());
    match r {
        Ok(v) => ensure!((0..rows).all(|i| (0..cols).all(|j| v[(i, j)] == before[(r0 + i, c0 + j)])), "rows {}.. and columns {}.. of {}: {}", r0, c0, before, v),
        Err(_) => ensure!(rows < n, "complete columns are refused"),
    }
    // sizes that do not fit
    let more = c.int(1, 3);
    let b = before.clone();
    ensure!(catch(move || coerce_col_major_slice(&b, Dyn(n + more), Dyn(m)).nrows()).is_err(), "{} rows of {} are accepted", n + more, n);
    let b = before.clone();
    ensure!(catch(move || coerce_col_major_slice(&b, Dyn(n), Dyn(m + more)).ncols()).is_err(), "{} columns of {} are accepted", m + more, m);
    let mut b = before.clone();
    ensure!(catch(|| coerce_col_major_slice_mut(&mut b, Dyn(n + more), Dyn(m)).nrows()).is_err(), "{} mutable rows of {} are accepted", n + more, n);
    ensure!(catch(|| coerce_col_major_slice_mut(&mut b, Dyn(n), Dyn(m + more)).ncols()).is_err(), "{} mutable columns of {} are accepted", m + more, m);
    let (sn, sm) = (c.int(0, n - 1), c.int(0, m - 1));
    ensure!(catch(|| coerce_col_major_slice(&before, Dyn(sn), Dyn(m)).nrows()).is_err() && catch(|| coerce_col_major_slice(&before, Dyn(n), Dyn(sm)).nrows()).is_err(), "{} rows of {} or {} columns of {} are accepted", sn, n, sm, m);
    ensure!(catch(|| coerce_col_major_slice_mut(&mut b, Dyn(sn), Dyn(m)).nrows()).is_err() && catch(|| coerce_col_major_slice_mut(&mut b, Dyn(n), Dyn(sm)).nrows()).is_err(), "{} mutable rows of {} or {} columns of {} are accepted", sn, n, sm, m);
    {
        let mut b = before.clone();
        let mut part = b.view_mut((r0, c0), (rows, cols));
        match catch(|| coerce_col_major_slice_mut(&mut part, Dyn(rows), Dyn(cols)).fill(7000.0)) {
            Ok(()) => {
                let mut want = before.clone();
                want.view_mut((r0, c0), (rows, cols)).fill(7000.0);
                ensure!(b == want, "filling rows {}.. and columns {}.. of {} gives {}", r0, c0, before, b);
            }
            Err(_) => ensure!(rows < n, "complete mutable columns are refused"),
        }
    }
    // a transposed view is row major
    let t = before.transpose();
    let strided = MatrixView::<f64, Dyn, Dyn, Dyn, Dyn>::from_slice_with_strides_generic(t.as_slice(), Dyn(n), Dyn(m), Dyn(m), Dyn(1));
    match catch(|| coerce_col_major_slice(&strided, Dyn(n), Dyn(m)).into_owned()) {
        Ok(v) => ensure!(v == before, "row major {} is seen as {}", before, v),
        Err(_) => ensure!(n > 1 && m > 1 || n * m > 1, "one entry is refused"),
    }
    // reinterpretation
    let data = values(c, 4);
    ensure!(try_transmute_slice::<f64, f64>(&data) == Some(&data[..]), "a slice is not seen as itself");
    ensure!(try_transmute_slice::<f64, u64>(&data).is_none() && try_transmute_slice::<f64, [u8; 8]>(&data).is_none(), "a slice of floats is seen as another type");
    ensure!(try_transmute_ref::<f64, f64>(&data[0]) == Some(&data[0]) && try_transmute_ref::<f64, i64>(&data[0]).is_none(), "reinterpreted reference");
    let mut x = data[0];
    if let Some(y) = try_transmute_ref_mut::<f64, f64>(&mut x) {
        *y += 1.0;
    }
    ensure_eq!(x, data[0] + 1.0, "value changed through a reinterpreted reference");
    ensure!(try_transmute_ref_mut::<f64, u64>(&mut x).is_none(), "reinterpreted mutable reference");
    Ok(())
}

fn vectors(c: &mut Case) -> Res {
    let n = c.int(0, 6);
    let d = c.int(1, 3);
    let unit = c.value_unit();
    let pts: Vec<Vec<f64>> = c.vec(n, |c| c.vec(d, |c| unit * c.sint(-50, 50) as f64));
    let s = c.int(1, 3);
    c.note_debug("points", &pts);
    c.nontrivial_if(n > 1);
    let f = |x: &[f64], k: usize| x.iter().enumerate().map(|(i, v)| v * (1 + i + 3 * k) as f64).sum::<f64>();
    let mut calls: Vec<Vec<f64>> = vec![];
    macro_rules! go {
        ($d:ty, $s:ty) => {{
            let p: Vec<OPoint<f64, $d>> = pts.iter().map(|p| opoint(p)).collect();
            global_vector_from_point_fn(&p, |x: &OPoint<f64, $d>| {
                calls.push(x.coords.iter().copied().collect());
                OVector::<f64, $s>::from_fn(|k, _| f(x.coords.as_slice(), k))
            })
        }};
    }
    let got = match (d, s) {
        (1, 1) => go!(U1, U1),
        (1, 2) => go!(U1, U2),
        (1, _) => go!(U1, U3),
        (2, 1) => go!(U2, U1),
        (2, 2) => go!(U2, U2),
        (2, _) => go!(U2, U3),
        (_, 1) => go!(U3, U1),
        (_, 2) => go!(U3, U2),
        _ => go!(U3, U3),
    };
    let want: Vec<f64> = pts.iter().flat_map(|p| (0..s).map(move |k| f(p, k))).collect();
    ensure!(got.as_slice() == &want[..], "global vector {:?}, expected {:?}", got.as_slice(), want);
    ensure!(calls == pts, "the function is called with {:?}", calls);
    // cyclic equality
    let k = c.int(0, 6);
    let m = c.int(1, 3);
    let x = c.vec(k, |c| c.int(0, m));
    let y = if c.bool() && k > 0 {
        let r = c.int(0, k - 1);
        let mut y = x.clone();
        y.rotate_left(r);
        if c.chance(1, 3) {
            let at = c.int(0, k - 1);
            y[at] = c.int(0, m);
        }
        y
    } else {
        let k = if c.bool() { k } else { c.int(0, 6) };
        c.vec(k, |c| c.int(0, m))
    };
    let want = x.len() == y.len() && (x.is_empty() || (0..x.len()).any(|r| [&x[r..], &x[..r]].concat() == y));
    c.note_debug("cyclic", &(&x, &y));
    ensure_eq!(slices_are_equal_shift_invariant(&x, &y, |a, b| a == b), want, "{:?} and {:?} are equal up to rotation", x, y);
    Ok(())
}

// ---- interpolation

fn close(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-12 * scale
}

fn local_sums(c: &mut Case) -> Res {
    let n = if c.boost > 0 { c.size(600) } else { c.int(0, 12) };
    let s = c.int(1, 3);
    let d = c.int(1, 3);
    let unit = c.value_unit();
    let u = unit * DVector::from_vec(c.values(s * n, 10.0));
    let basis = DVector::from_vec(c.values(n, 2.0));
    let grads = unit * DVector::from_vec(c.values(d * n, 5.0));
    let bad = c.chance(1, 8);
    c.note_debug("weights, values, gradients", &(&u, &basis, &grads));
    c.class_if(bad, "invalid");
    c.nontrivial_if(n > 1);
    let (u, basis, grads) = if bad {
        let k = c.int(1, 2);
        let which = c.int(0, 1);
        if which == 0 {
            (u.clone().resize_vertically(s * n + k, 1.0), basis, grads)
        } else {
            (u, basis.resize_vertically(n + k, 1.0), grads.resize_vertically(d * (n + k), 1.0))
        }
    } else {
        (u, basis, grads)
    };
    macro_rules! go {
        ($s:ty, $($d:literal $dt:ty),*) => {{
            let v = catch(|| compute_interpolation::<f64, $s>(&u, &basis).as_slice().to_vec());
            let g = catch(|| match d { $($d => {
                let m = compute_interpolation_gradient::<f64, $s, $dt>(&u, &grads);
                (m.nrows(), m.as_slice().to_vec())
            })* _ => unreachable!() });
            (v, g)
        }};
    }
    let (v, g) = match s {
        1 => go!(U1, 1 U1, 2 U2, 3 U3),
        2 => go!(U2, 1 U1, 2 U2, 3 U3),
        _ => go!(U3, 1 U1, 2 U2, 3 U3),
    };
    if bad {
        ensure!(v.is_err(), "{} weights for {} basis functions and {} components are accepted: {:?}", u.len(), basis.len(), s, v);
        ensure!(g.is_err(), "{} weights for {} gradients and {} components are accepted: {:?}", u.len(), grads.len() / d, s, g);
        return Ok(());
    }
    let (v, (rows, g)) = match (v, g) {
        (Ok(v), Ok(g)) => (v, g),
        (v, g) => fail!("refused: {:?} {:?}", v, g),
    };
    for k in 0..s {
        let want: f64 = (0..n).map(|i| u[s * i + k] * basis[i]).sum();
        ensure!(close(v[k], want, unit * 20.0 * n as f64), "component {} is {}, expected {}", k, v[k], want);
        for l in 0..d {
            let want: f64 = (0..n).map(|i| grads[d * i + l] * u[s * i + k]).sum();
            ensure!(close(g[k * rows + l], want, unit * unit * 50.0 * n as f64), "derivative {} of component {} is {}, expected {}", l, k, g[k * rows + l], want);
        }
    }
    Ok(())
}

/// A history of elements and points with the same buffers
fn buffers(c: &mut Case) -> Res {
    if c.bool() {
        buffers_in::<U2>(c, 2)
    } else {
        buffers_in::<U3>(c, 3)
    }
}

fn buffers_in<D: fenris::SmallDim + nalgebra::DimMin<D, Output = D>>(c: &mut Case, d: usize) -> Res
where
    DefaultAllocator: fenris::allocators::BiDimAllocator<f64, D, D> + fenris::allocators::TriDimAllocator<f64, D, D, U1> + fenris::allocators::TriDimAllocator<f64, D, D, U2> + fenris::allocators::TriDimAllocator<f64, D, D, U3>,
{
    let (elems, n) = gen_elems(c, d, 4, 3.0, 0.1, true);
    if elems.is_empty() {
        discard!("no elements");
    }
    let space = MixedSpace::<D>::new(elems, n);
    let kinds: Vec<Kind> = space.elems.iter().map(|e| e.kind).collect();
    let unit = c.value_unit();
    let fields: Vec<(usize, DVector<f64>)> = (1..4).map(|s| (s, unit * DVector::from_vec(c.values(s * n, 10.0)))).collect();
    let steps = c.int(1, 8);
    c.note_debug("elements", &kinds);
    c.note_debug("nodes", &space.elems.iter().map(|e| &e.nodes).collect::<Vec<_>>());
    c.nontrivial_if(steps > 1 && space.elems.len() > 1);
    let mut buffer = InterpolationBuffer::<f64>::default();
    let mut basis = BasisFunctionBuffer::<f64>::default();
    for step in 0..steps {
        let e = c.int(0, space.elems.len() - 1);
        let el = &space.elems[e];
        let k = el.nodes.len();
        let (s, u) = &fields[c.int(0, 2)];
        let s = *s;
        c.note(|| format!("step {}: element {}, {} components", step, e, s));
        {
            let mut b = buffer.prepare_element_in_space(e, &space, u, s);
            let points = c.int(1, 3);
            // what the last updates refer to
            let (mut at_values, mut at_grads): (Option<Vec<f64>>, Option<Vec<f64>>) = (None, None);
            for _ in 0..points {
                let xi = el.kind.ref_point(c);
                let x: OPoint<f64, D> = opoint(&xi);
                let update = [BufferUpdate::BasisValues, BufferUpdate::BasisGradients, BufferUpdate::Both][c.int(0, 2)].clone();
                c.note(|| format!("update {:?} at {:?}", update, xi));
                if update != BufferUpdate::BasisGradients {
                    at_values = Some(xi.clone());
                }
                if update != BufferUpdate::BasisValues {
                    at_grads = Some(xi.clone());
                }
                b.update_reference_point(&x, update);
                let mapped = b.map_reference_coords();
                ensure!(dist(mapped.coords.as_slice(), &el.map(&xi)) <= 1e-11, "reference point mapped to {:?}, expected {:?}", mapped, el.map(&xi));
                let j = b.element_reference_jacobian();
                let want = el.kind.jacobian(&el.corners, &xi);
                ensure!((0..d).all(|r| (0..d).all(|q| close(j[(r, q)], want[(r, q)], 10.0))), "Jacobian {}, expected {}", j, want);
                if let Some(xi) = &at_values {
                    let phi = el.basis(xi);
                    ensure!(b.basis_values().len() == k && b.basis_values().iter().zip(&phi).all(|(p, q)| close(*p, *q, 1.0)), "basis values {:?}, expected {:?}", b.basis_values(), phi);
                    let v: Vec<f64> = match s {
                        1 => b.interpolate::<U1>().as_slice().to_vec(),
                        2 => b.interpolate::<U2>().as_slice().to_vec(),
                        _ => b.interpolate::<U3>().as_slice().to_vec(),
                    };
                    for m in 0..s {
                        let want: f64 = (0..k).map(|i| u[s * el.nodes[i] + m] * phi[i]).sum();
                        ensure!(close(v[m], want, 1000.0 * unit), "component {} of the interpolation is {}, expected {}", m, v[m], want);
                    }
                }
                if let Some(xi) = &at_grads {
                    let g = el.dynamic.gradients(xi);
                    let got: Vec<f64> = match s {
                        1 => b.interpolate_ref_gradient::<U1>().as_slice().to_vec(),
                        2 => b.interpolate_ref_gradient::<U2>().as_slice().to_vec(),
                        _ => b.interpolate_ref_gradient::<U3>().as_slice().to_vec(),
                    };
                    for m in 0..s {
                        for l in 0..d {
                            let want: f64 = (0..k).map(|i| u[s * el.nodes[i] + m] * g[(l, i)]).sum();
                            ensure!(close(got[m * d + l], want, 3000.0 * unit), "derivative {} of component {} is {}, expected {}", l, m, got[m * d + l], want);
                        }
                    }
                }
            }
        }
        // the buffer of basis functions
        basis.resize(k, d);
        basis.populate_element_nodes_from_space(e, &space);
        ensure!(basis.element_nodes() == &el.nodes[..], "nodes {:?}, expected {:?}", basis.element_nodes(), el.nodes);
        let xi = el.kind.ref_point(c);
        let x: OPoint<f64, D> = opoint(&xi);
        basis.populate_element_basis_values_from_space(e, &space, &x);
        basis.populate_element_basis_gradients_from_space(e, &space, &x);
        let (phi, g) = (el.basis(&xi), el.dynamic.gradients(&xi));
        ensure!(basis.element_basis_values() == &phi[..], "basis values {:?}, expected {:?}", basis.element_basis_values(), phi);
        let got = basis.element_gradients::<D>();
        ensure!(got.ncols() == k && (0..d).all(|r| (0..k).all(|q| got[(r, q)] == g[(r, q)])), "gradients {}, expected {}", got, g);
        let mut direct = vec![0.0; k];
        space.populate_element_basis(e, &mut direct, &x);
        ensure!(direct == phi, "harness");
    }
    Ok(())
}

/// Long vectors, high indices
fn huge(c: &mut Case) -> Res {
    c.boost = 150_000;
    if c.bool() {
        gather(c)
    } else {
        local_sums(c)
    }
}

fn main() {
    pbt::main(Property {
        id: "C33",
        rule: "several indices (gather), several entries (views, vectors, local_sums), several steps on several elements (buffers); huge: the same with up to 150000 nodes, 600 indices or basis functions",
        assumptions: &[],
        clauses: vec![
            clause("gather", 2_400_000, 24_000_000, gather),
            clause("views", 480_000, 4_800_000, views),
            clause("vectors", 4_000_000, 40_000_000, vectors),
            clause("local_sums", 3_500_000, 35_000_000, local_sums),
            clause("buffers", 480_000, 4_800_000, buffers),
            clause("huge", 40000, 400000, huge),
        ],
    })
}
