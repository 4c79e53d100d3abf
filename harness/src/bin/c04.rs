//! C04: element assembler adaptors.
use eyre::eyre;
use fenris::assembly::global::*;
use fenris::assembly::local::*;
use fenris::nalgebra::{DMatrix, DMatrixViewMut, DVector, DVectorViewMut};
use pbt::sparse_util::*;
use pbt::synth::IntElements;
use pbt::*;

/// Everything an assembler says, element by element
#[derive(Debug, PartialEq, Clone)]
struct Flat {
    sdim: usize,
    num_nodes: usize,
    elements: Vec<(Vec<usize>, DMatrix<f64>, DVector<f64>, f64)>,
}

impl Flat {
    fn of(el: &IntElements) -> Self {
        Flat {
            sdim: el.sdim,
            num_nodes: el.num_nodes,
            elements: (0..el.nodes.len())
                .map(|e| (el.nodes[e].clone(), el.elem_matrix(e), el.elem_vector(e), el.elem_scalar(e)))
                .collect(),
        }
    }

    fn vector(&self) -> DVector<f64> {
        let mut v = DVector::zeros(self.sdim * self.num_nodes);
        for (nodes, _, ev, _) in &self.elements {
            for i in 0..ev.len() {
                v[self.sdim * nodes[i / self.sdim] + i % self.sdim] += ev[i];
            }
        }
        v
    }

    /// Row offsets, columns and values
    fn csr(&self) -> (Vec<usize>, Vec<usize>, Vec<f64>) {
        let mut rows: Vec<Vec<(usize, f64)>> = vec![vec![]; self.sdim * self.num_nodes];
        for (nodes, em, ..) in &self.elements {
            let dof = |i: usize| self.sdim * nodes[i / self.sdim] + i % self.sdim;
            for i in 0..em.nrows() {
                rows[dof(i)].extend((0..em.ncols()).map(|j| (dof(j), em[(i, j)])));
            }
        }
        sum_rows(rows)
    }

    fn dense(&self) -> (DMatrix<f64>, DVector<f64>, f64) {
        let n = self.sdim * self.num_nodes;
        let mut m = DMatrix::zeros(n, n);
        let mut v = DVector::zeros(n);
        let mut s = 0.0;
        for (nodes, em, ev, es) in &self.elements {
            let dof = |i: usize| self.sdim * nodes[i / self.sdim] + i % self.sdim;
            for i in 0..ev.len() {
                v[dof(i)] += ev[i];
                for j in 0..ev.len() {
                    m[(dof(i), dof(j))] += em[(i, j)];
                }
            }
            s += es;
        }
        (m, v, s)
    }
}

trait All: ElementMatrixAssembler<f64> + ElementVectorAssembler<f64> + ElementScalarAssembler<f64> {}
impl<X: ElementMatrixAssembler<f64> + ElementVectorAssembler<f64> + ElementScalarAssembler<f64>> All for X {}

fn check_conn<A: ElementConnectivityAssembler>(a: &A, f: &Flat) -> Res {
    ensure_eq!(a.solution_dim(), f.sdim, "solution_dim");
    ensure_eq!(a.num_nodes(), f.num_nodes, "num_nodes");
    ensure_eq!(a.num_elements(), f.elements.len(), "num_elements");
    for (e, el) in f.elements.iter().enumerate() {
        ensure_eq!(a.element_node_count(e), el.0.len(), "node count of element {}", e);
        let mut nodes = vec![usize::MAX; el.0.len()];
        a.populate_element_nodes(&mut nodes, e);
        ensure_eq!(nodes, el.0, "nodes of element {}", e);
    }
    Ok(())
}

fn check_matrix<A: ElementMatrixAssembler<f64>>(a: &A, f: &Flat) -> Res {
    check_conn(a, f)?;
    for (e, el) in f.elements.iter().enumerate() {
        let m = a.assemble_element_matrix(e).map_err(|e| e.to_string())?;
        ensure_eq!(m, el.1, "matrix of element {}", e);
        let mut out = DMatrix::from_element(m.nrows(), m.ncols(), 77.0);
        a.assemble_element_matrix_into(e, DMatrixViewMut::from(&mut out)).map_err(|e| e.to_string())?;
        ensure_eq!(out, el.1, "matrix of element {} (into)", e);
    }
    let distinct = f.elements.iter().all(|el| {
        let mut s = el.0.clone();
        s.sort();
        s.dedup();
        s.len() == el.0.len()
    });
    if distinct {
        let g = CsrAssembler::default().assemble(a).map_err(|e| e.to_string())?;
        ensure_eq!(csr_to_dense(&g)?, f.dense().0, "global matrix");
    }
    Ok(())
}

fn check_vector<A: ElementVectorAssembler<f64>>(a: &A, f: &Flat) -> Res {
    check_conn(a, f)?;
    for (e, el) in f.elements.iter().enumerate() {
        let m = a.assemble_element_vector(e).map_err(|e| e.to_string())?;
        ensure_eq!(m, el.2, "vector of element {}", e);
        let mut out = DVector::from_element(m.len(), 77.0);
        a.assemble_element_vector_into(e, DVectorViewMut::from(&mut out)).map_err(|e| e.to_string())?;
        ensure_eq!(out, el.2, "vector of element {} (into)", e);
    }
    let g = VectorAssembler::default().assemble_vector(a).map_err(|e| e.to_string())?;
    ensure_eq!(g, f.dense().1, "global vector");
    Ok(())
}

fn check_scalar<A: ElementScalarAssembler<f64>>(a: &A, f: &Flat) -> Res {
    check_conn(a, f)?;
    for (e, el) in f.elements.iter().enumerate() {
        ensure_eq!(a.assemble_element_scalar(e).map_err(|e| e.to_string())?, el.3, "scalar of element {}", e);
    }
    ensure_eq!(assemble_scalar(a).map_err(|e| e.to_string())?, f.dense().2, "global scalar");
    Ok(())
}

fn check_all<A: All>(a: &A, f: &Flat) -> Res {
    check_matrix(a, f)?;
    check_vector(a, f)?;
    check_scalar(a, f)
}

/// Several parts on a common node space
fn gen_parts(c: &mut Case) -> Vec<IntElements> {
    let n = c.int(1, 6);
    let sdim = c.int(1, 3);
    let base = IntElements::generate_with(c, sdim, 12, 1, 3, false);
    (0..n)
        .map(|_| {
            let mut el = IntElements::generate_with(c, sdim, 12, 6, 4, false);
            // Same node space: fold the nodes into it, without repetitions inside of an element
            if c.chance(1, 4) {
                el.nodes.clear();
            }
            let m = base.num_nodes;
            let nodes = el
                .nodes
                .iter()
                .map(|ns| {
                    let mut out: Vec<usize> = vec![];
                    for x in ns {
                        if m > 0 && !out.contains(&(x % m)) {
                            out.push(x % m)
                        }
                    }
                    out
                })
                .collect();
            IntElements::new(sdim, m, nodes, el.salt, None, el.unit)
        })
        .collect()
}

fn concat(parts: &[Flat]) -> Flat {
    Flat {
        sdim: parts[0].sdim,
        num_nodes: parts[0].num_nodes,
        elements: parts.iter().flat_map(|p| p.elements.iter().cloned()).collect(),
    }
}

fn note_parts(c: &mut Case, parts: &[IntElements]) {
    c.note(|| {
        format!(
            "sdim {}, num_nodes {}, parts {:?}",
            parts[0].sdim,
            parts[0].num_nodes,
            parts.iter().map(|p| p.nodes.clone()).collect::<Vec<_>>()
        )
    });
    c.class_if(parts.len() >= 2, ">= 2 parts");
    c.class_if(parts.iter().any(|p| p.nodes.is_empty()), "part without elements");
    c.class_if(parts.last().unwrap().nodes.is_empty(), "last part without elements");
    c.class_if(parts[0].nodes.is_empty(), "first part without elements");
    c.nontrivial_if(parts.iter().filter(|p| !p.nodes.is_empty()).count() >= 2);
}

fn aggregate(c: &mut Case) -> Res {
    let parts = gen_parts(c);
    note_parts(c, &parts);
    let flat: Vec<Flat> = parts.iter().map(Flat::of).collect();
    let all = concat(&flat);
    let agg = AggregateElementAssembler::from_assemblers(&parts);
    check_all(&agg, &all)?;
    // A sum of parts
    let sum = flat.iter().map(|f| f.dense()).fold(None, |acc: Option<(DMatrix<f64>, DVector<f64>, f64)>, x| {
        Some(match acc {
            None => x,
            Some(a) => (a.0 + x.0, a.1 + x.1, a.2 + x.2),
        })
    });
    ensure_eq!(all.dense(), sum.unwrap(), "dense model (harness)");
    // Aggregates of aggregates
    let k = c.int(1, parts.len());
    let (l, r) = parts.split_at(k);
    let mut nested = vec![AggregateElementAssembler::from_assemblers(l)];
    if !r.is_empty() {
        nested.push(AggregateElementAssembler::from_assemblers(r));
    }
    if c.bool() {
        nested.insert(0, AggregateElementAssembler::from_assemblers(&parts));
        let mut twice = all.clone();
        twice.elements.extend(all.elements.iter().cloned());
        return check_all(&AggregateElementAssembler::from_assemblers(&nested), &twice);
    }
    check_all(&AggregateElementAssembler::from_assemblers(&nested), &all)
}

fn mapped(c: &mut Case) -> Res {
    let parts = gen_parts(c);
    note_parts(c, &parts);
    let m = parts[0].num_nodes;
    // one injective (or arbitrary) map per part into a bigger space
    let big = m + c.int(0, 10);
    let injective = c.chance(3, 4) || m == 0;
    let maps: Vec<Vec<usize>> = parts
        .iter()
        .map(|_| if injective { c.distinct(m, big) } else { c.vec(m, |c| c.int(0, big - 1)) })
        .collect();
    c.note_debug("maps", &maps);
    let flat: Vec<Flat> = parts
        .iter()
        .zip(&maps)
        .map(|(p, map)| {
            let mut f = Flat::of(p);
            f.num_nodes = big;
            for e in &mut f.elements {
                for n in &mut e.0 {
                    *n = map[*n];
                }
            }
            f
        })
        .collect();
    let mapped: Vec<_> = parts
        .iter()
        .zip(maps.clone())
        .map(|(p, map)| {
            let f: Box<dyn Fn(usize) -> usize> = Box::new(move |i| map[i]);
            p.clone().map_element_nodes(big, f)
        })
        .collect();
    for (a, f) in mapped.iter().zip(&flat) {
        check_all(a, f)?;
    }
    let all = concat(&flat);
    let agg = AggregateElementAssembler::from_assemblers(&mapped);
    check_all(&agg, &all)?;
    // Map the aggregate once more
    let shift = c.int(0, 3);
    let mut shifted = all.clone();
    shifted.num_nodes = big + shift;
    for e in &mut shifted.elements {
        for n in &mut e.0 {
            *n += shift;
        }
    }
    check_all(&agg.map_element_nodes(big + shift, |i| i + shift), &shifted)
}

fn transformed(c: &mut Case) -> Res {
    let parts = gen_parts(c);
    note_parts(c, &parts);
    let (p, q) = (c.int(0, 5) as f64 - 2.0, c.value_unit() * (c.int(0, 5) as f64 - 2.0));
    c.note(|| format!("scale {}, offset {}", p, q));
    let flat: Vec<Flat> = parts.iter().map(Flat::of).collect();
    let mut all = concat(&flat);
    for e in &mut all.elements {
        // x -> p * x + q * (position), which detects both missing and repeated application
        let n = e.2.len();
        for i in 0..n {
            e.2[i] = p * e.2[i] + q * i as f64;
            for j in 0..n {
                e.1[(i, j)] = p * e.1[(i, j)] + q * (i + 2 * j) as f64;
            }
        }
        e.3 = p * e.3 + q;
    }
    let tm = move |mut m: DMatrixViewMut<f64>| {
        for j in 0..m.ncols() {
            for i in 0..m.nrows() {
                m[(i, j)] = p * m[(i, j)] + q * (i + 2 * j) as f64;
            }
        }
        Ok(())
    };
    let tv = move |mut v: DVectorViewMut<f64>| {
        for i in 0..v.len() {
            v[i] = p * v[i] + q * i as f64;
        }
        Ok(())
    };
    let ts = move |s: f64| Ok(p * s + q);
    let agg = || AggregateElementAssembler::from_assemblers(&parts);
    check_matrix(&agg().transform_element_matrix(tm), &all)?;
    check_vector(&agg().transform_element_vector(tv), &all)?;
    check_scalar(&agg().transform_element_scalar(ts), &all)?;
    // The other order of nesting
    let inner: Vec<_> = parts.iter().map(|p| p.clone().transform_element_matrix(tm)).collect();
    check_matrix(&AggregateElementAssembler::from_assemblers(&inner), &all)?;
    let inner: Vec<_> = parts.iter().map(|p| p.clone().transform_element_vector(tv)).collect();
    check_vector(&AggregateElementAssembler::from_assemblers(&inner), &all)?;
    let inner: Vec<_> = parts.iter().map(|p| p.clone().transform_element_scalar(ts)).collect();
    check_scalar(&AggregateElementAssembler::from_assemblers(&inner), &all)
}

fn errors(c: &mut Case) -> Res {
    let mut parts = gen_parts(c);
    note_parts(c, &parts);
    let with: Vec<usize> = (0..parts.len()).filter(|i| !parts[*i].nodes.is_empty()).collect();
    if with.is_empty() {
        discard!("no elements");
    }
    let k = *c.pick(&with);
    let e = c.int(0, parts[k].nodes.len() - 1);
    parts[k].fail_at = Some(e);
    let before: usize = parts[..k].iter().map(|p| p.nodes.len()).sum();
    let total: usize = parts.iter().map(|p| p.nodes.len()).sum();
    let agg = AggregateElementAssembler::from_assemblers(&parts);
    for i in 0..total {
        let should_fail = i == before + e;
        ensure_eq!(agg.assemble_element_matrix(i).is_err(), should_fail, "error of element matrix {}", i);
        ensure_eq!(agg.assemble_element_vector(i).is_err(), should_fail, "error of element vector {}", i);
        ensure_eq!(agg.assemble_element_scalar(i).is_err(), should_fail, "error of element scalar {}", i);
    }
    // errors below a transformation
    let t = AggregateElementAssembler::from_assemblers(&parts).transform_element_matrix(|_| Ok(()));
    ensure_eq!((0..total).map(|i| t.assemble_element_matrix(i).is_err()).collect::<Vec<_>>(), (0..total).map(|i| i == before + e).collect::<Vec<_>>(), "errors of transformed matrices");
    let t = AggregateElementAssembler::from_assemblers(&parts).transform_element_vector(|_| Ok(()));
    ensure_eq!((0..total).map(|i| t.assemble_element_vector(i).is_err()).collect::<Vec<_>>(), (0..total).map(|i| i == before + e).collect::<Vec<_>>(), "errors of transformed vectors");
    let t = AggregateElementAssembler::from_assemblers(&parts).transform_element_scalar(|s| Ok(s));
    ensure_eq!((0..total).map(|i| t.assemble_element_scalar(i).is_err()).collect::<Vec<_>>(), (0..total).map(|i| i == before + e).collect::<Vec<_>>(), "errors of transformed scalars");
    // errors of transformations
    let good: Vec<IntElements> = parts.iter().map(|p| IntElements::new(p.sdim, p.num_nodes, p.nodes.clone(), p.salt, None, p.unit)).collect();
    let agg = || AggregateElementAssembler::from_assemblers(&good);
    let a = agg().transform_element_matrix(|_| Err(eyre!("refused")));
    ensure!(CsrAssembler::<f64>::default().assemble(&a).is_err(), "error of a matrix transformation is lost");
    let a = agg().transform_element_vector(|_| Err(eyre!("refused")));
    ensure!(VectorAssembler::<f64>::default().assemble_vector(&a).is_err(), "error of a vector transformation is lost");
    let a = agg().transform_element_scalar(|_| Err(eyre!("refused")));
    ensure!(assemble_scalar::<f64>(&a).is_err(), "error of a scalar transformation is lost");
    Ok(())
}

/// Hundreds of parts, thousands of elements, high node numbers
fn huge(c: &mut Case) -> Res {
    let sdim = c.int(1, 3);
    let many_parts = c.bool();
    let np = if many_parts { c.size(400).max(1) } else { c.int(1, 4) };
    let num_nodes = *c.pick(&[30, 3_000, 70_000]);
    let sizes: Vec<usize> = (0..np).map(|_| if many_parts { c.int(0, 4) } else { c.size(3000) }).collect();
    let arity = c.int(1, 3);
    let salts: Vec<usize> = (0..np).map(|_| c.int(0, 1000)).collect();
    c.note(|| format!("sdim {}, {} nodes, parts with {:?} elements with {} nodes each", sdim, num_nodes, sizes, arity));
    let total: usize = sizes.iter().sum();
    c.class_if(np > 64, "> 64 parts");
    c.class_if(total > 256, "> 256 elements");
    c.nontrivial_if(np > 64 || total > 256);
    let mut d = c.dice();
    let parts: Vec<IntElements> = (0..np)
        .map(|p| {
            let nodes = (0..sizes[p]).map(|_| d.distinct(arity, num_nodes)).collect();
            IntElements::new(sdim, num_nodes, nodes, salts[p] as i64, None, c.value_unit())
        })
        .collect();
    let shift = c.int(0, 3);
    let (factor, offset) = (c.int(0, 5) as f64 - 2.0, c.value_unit() * (c.int(0, 5) as f64 - 2.0));
    let agg = || AggregateElementAssembler::from_assemblers(&parts);
    let exp = concat(&parts.iter().map(Flat::of).collect::<Vec<_>>());
    let n = sdim * num_nodes;
    let check = |a: &dyn Fn() -> Res, what: &str| -> Res { a().map_err(|e| match e {
        Stop::Fail(m) => Stop::Fail(format!("{}: {}", what, m)),
        o => o,
    }) };
    check(&|| {
        let a = agg();
        check_conn(&a, &exp)?;
        let m = CsrAssembler::default().assemble(&a).map_err(|e| e.to_string())?;
        same_csr(&m, &exp.csr())?;
        let v = VectorAssembler::default().assemble_vector(&a).map_err(|e| e.to_string())?;
        ensure!(v == exp.vector(), "global vector of {} entries", n);
        check_scalar_of(&a, &exp)
    }, "aggregate")?;
    check(&|| {
        let mut shifted = exp.clone();
        shifted.num_nodes += shift;
        shifted.elements.iter_mut().for_each(|e| e.0.iter_mut().for_each(|i| *i += shift));
        let a = agg().map_element_nodes(num_nodes + shift, |i| i + shift);
        check_conn(&a, &shifted)?;
        let m = CsrAssembler::default().assemble(&a).map_err(|e| e.to_string())?;
        same_csr(&m, &shifted.csr())?;
        let v = VectorAssembler::default().assemble_vector(&a).map_err(|e| e.to_string())?;
        ensure!(v == shifted.vector(), "global vector");
        check_scalar_of(&a, &shifted)
    }, "mapped aggregate")?;
    check(&|| {
        let mut t = exp.clone();
        for e in &mut t.elements {
            e.1.iter_mut().for_each(|x| *x = factor * *x + offset);
            e.2.iter_mut().for_each(|x| *x = factor * *x + offset);
            e.3 = factor * e.3 + offset;
        }
        let a = agg().transform_element_matrix(|mut m: DMatrixViewMut<f64>| Ok(m.iter_mut().for_each(|x| *x = factor * *x + offset)));
        let m = CsrAssembler::default().assemble(&a).map_err(|e| e.to_string())?;
        same_csr(&m, &t.csr())?;
        let a = agg().transform_element_vector(|mut m: DVectorViewMut<f64>| Ok(m.iter_mut().for_each(|x| *x = factor * *x + offset)));
        let v = VectorAssembler::default().assemble_vector(&a).map_err(|e| e.to_string())?;
        ensure!(v == t.vector(), "global vector");
        check_scalar_of(&agg().transform_element_scalar(|s| Ok(factor * s + offset)), &t)
    }, "transformed aggregate")
}

/// Elements in any order, from several threads at the same time
fn threads(c: &mut Case) -> Res {
    let sdim = c.int(1, 2);
    let np = c.int(1, 12);
    let arity = c.int(1, 3);
    let num_nodes = arity + c.size(60);
    let sizes: Vec<usize> = (0..np).map(|_| if c.chance(1, 4) { 0 } else { c.size(60) }).collect();
    let salts: Vec<usize> = (0..np).map(|_| c.int(0, 1000)).collect();
    let workers = c.int(1, 4);
    let visits = c.size(200);
    let total: usize = sizes.iter().sum();
    c.note(|| format!("sdim {}, {} nodes, parts with {:?} elements with {} nodes each, {} visits by each of {} threads", sdim, num_nodes, sizes, arity, visits, workers));
    c.class_if(workers > 1, "several threads");
    c.nontrivial_if(total > 1 && sizes.iter().filter(|n| **n > 0).count() > 1 && visits > 1);
    let mut d = c.dice();
    let parts: Vec<IntElements> = (0..np)
        .map(|p| {
            let nodes = (0..sizes[p]).map(|_| d.distinct(arity, num_nodes)).collect();
            IntElements::new(sdim, num_nodes, nodes, salts[p] as i64, None, 1.0)
        })
        .collect();
    let exp = concat(&parts.iter().map(Flat::of).collect::<Vec<_>>());
    let mut moved = exp.clone();
    moved.num_nodes += 2;
    moved.elements.iter_mut().for_each(|e| {
        e.0.iter_mut().for_each(|i| *i += 2);
        e.3 = 3.0 * e.3 + 1.0;
    });
    let agg = AggregateElementAssembler::from_assemblers(&parts);
    let mapped = AggregateElementAssembler::from_assemblers(&parts).map_element_nodes(num_nodes + 2, |i| i + 2);
    let scalars = AggregateElementAssembler::from_assemblers(&parts).transform_element_scalar(|s| Ok(3.0 * s + 1.0));
    if total > 0 {
        // runs of consecutive elements and jumps
        let orders: Vec<Vec<usize>> = (0..workers)
            .map(|_| {
                let mut e = d.int(0, total - 1);
                (0..visits)
                    .map(|_| {
                        e = if d.int(0, 2) == 0 { d.int(0, total - 1) } else { (e + 1) % total };
                        e
                    })
                    .collect()
            })
            .collect();
        let visit = |order: &[usize]| -> Res {
            for e in order {
                let el = &exp.elements[*e];
                let mut nodes = vec![usize::MAX; agg.element_node_count(*e)];
                agg.populate_element_nodes(&mut nodes, *e);
                ensure_eq!(nodes, el.0, "nodes of element {}", e);
                ensure_eq!(agg.assemble_element_matrix(*e).map_err(|e| e.to_string())?, el.1, "matrix of element {}", e);
                ensure_eq!(agg.assemble_element_vector(*e).map_err(|e| e.to_string())?, el.2, "vector of element {}", e);
                ensure_eq!(agg.assemble_element_scalar(*e).map_err(|e| e.to_string())?, el.3, "scalar of element {}", e);
                mapped.populate_element_nodes(&mut nodes, *e);
                ensure_eq!(nodes, moved.elements[*e].0, "nodes of mapped element {}", e);
                ensure_eq!(scalars.assemble_element_scalar(*e).map_err(|e| e.to_string())?, moved.elements[*e].3, "transformed scalar of element {}", e);
            }
            Ok(())
        };
        if workers == 1 {
            visit(&orders[0])?;
        } else {
            let results: Vec<Result<Res, Panicked>> = std::thread::scope(|s| {
                let visit = &visit;
                let handles: Vec<_> = orders.iter().map(|o| s.spawn(move || catch(|| visit(o)))).collect();
                handles.into_iter().map(|h| h.join().expect("caught")).collect()
            });
            for r in results {
                match r {
                    Ok(r) => r?,
                    Err(p) => fail!("panic: {}", p.message),
                }
            }
        }
    }
    // parallel assembly of the composition is that of the parts
    let colors = |f: &Flat| color_nodes(&IntElements::new(sdim, f.num_nodes, f.elements.iter().map(|e| e.0.clone()).collect(), 0, None, 1.0));
    let m = CsrParAssembler::default().assemble(&colors(&exp), &agg).map_err(|e| e.to_string())?;
    same_csr(&m, &exp.csr())?;
    let v = VectorParAssembler::default().assemble_vector(&colors(&moved), &mapped).map_err(|e| e.to_string())?;
    ensure!(v == moved.vector(), "global vector of the mapped aggregate, assembled in parallel");
    Ok(())
}

fn check_scalar_of<A: ElementScalarAssembler<f64>>(a: &A, f: &Flat) -> Res {
    let exp: f64 = f.elements.iter().map(|e| e.3).sum();
    ensure_eq!(assemble_scalar(a).map_err(|e| e.to_string())?, exp, "global scalar");
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C04",
        rule: "1..6 parts on a common node space (a quarter of them without elements), integer contributions, injective and arbitrary node maps into larger spaces, affine transformations that reveal missing or repeated application, nestings of aggregates, maps and transformations. Non-trivial: at least two parts with elements. threads: up to 12 parts visited in runs and jumps by up to 4 threads at once; non-trivial: at least two parts with elements and two visits. huge: up to 400 parts, 12000 elements and 70000 nodes; non-trivial: more than 64 parts or 256 elements.",
        assumptions: &["nodes of one element are distinct before mapping"],
        clauses: vec![
            clause("aggregate", 490_000, 4_900_000, aggregate),
            clause("mapped", 370_000, 3_700_000, mapped),
            clause("transformed", 560_000, 5_600_000, transformed),
            clause("errors", 2_200_000, 22_000_000, errors),
            clause("threads", 20_000, 200_000, threads),
            clause("huge", 3_000, 30_000, huge),
        ],
    })
}
