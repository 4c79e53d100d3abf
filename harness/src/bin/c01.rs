//! C01: serial global assembly.
use fenris::assembly::global::*;
use fenris::nalgebra::{DMatrix, DVector};
use pbt::sparse_util::*;
use pbt::synth::IntElements;
use pbt::*;

fn classify(c: &mut Case, el: &IntElements) {
    let arities: std::collections::BTreeSet<usize> = el.nodes.iter().map(|n| n.len()).collect();
    let mut used = vec![0; el.num_nodes];
    el.nodes.iter().flatten().for_each(|n| used[*n] += 1);
    c.class_if(el.nodes.is_empty(), "no elements");
    c.class_if(arities.len() > 1, "mixed arity");
    c.class_if(arities.contains(&0), "element without nodes");
    c.class_if(used.iter().any(|u| *u == 0), "unused node");
    c.class_if(used.iter().any(|u| *u > 1), "shared node");
    c.class_if(el.sdim > 1, "sdim > 1");
}

fn is_nontrivial(el: &IntElements) -> bool {
    let mut used = vec![0; el.num_nodes];
    el.nodes.iter().flatten().for_each(|n| used[*n] += 1);
    el.nodes.len() >= 2 && used.iter().any(|u| *u > 1)
}

fn matrix_history(c: &mut Case) -> Res {
    let assembler = CsrAssembler::<f64>::default();
    let steps = c.int(1, 4);
    for step in 0..steps {
        let mut el = IntElements::generate(c, 12, 14, 7, false);
        c.note_debug("elements", &(el.sdim, el.num_nodes, &el.nodes));
        classify(c, &el);
        c.nontrivial_if(is_nontrivial(&el));
        let pat = el.pattern();
        match c.int(0, 3) {
            0 => {
                let p = assembler.assemble_pattern(&el);
                check_pattern(&p, &pat)?;
            }
            1 => {
                let m = assembler.assemble(&el).map_err(|e| format!("step {}: unexpected error {}", step, e))?;
                check_pattern(m.pattern(), &pat)?;
                let mut exp = DMatrix::zeros(el.dim(), el.dim());
                el.add_matrix(&mut exp);
                ensure_eq!(csr_to_dense(&m)?, exp, "assembled matrix, step {}", step);
                ensure!(el.take_calls().iter().all(|k| *k == 1), "element matrices not assembled exactly once");
            }
            2 => {
                // Into an existing matrix with existing values, possibly with a larger pattern
                let mut p = pat.clone();
                let n = el.dim();
                if n > 0 {
                    for _ in 0..c.int(0, 12) {
                        let (i, j) = (c.int(0, n - 1), c.int(0, n - 1));
                        p[i][j] = true;
                    }
                }
                c.class("accumulate into existing");
                let salt = c.int(0, 50);
                let mut m = csr_from_pattern(&p, |i, j| el.unit * (((i * 31 + j * 17 + salt) % 13) as f64 - 6.0));
                let mut exp = csr_to_dense(&m)?;
                el.add_matrix(&mut exp);
                let repeat = c.int(1, 2);
                if repeat == 2 {
                    el.add_matrix(&mut exp);
                }
                for _ in 0..repeat {
                    assembler.assemble_into_csr(&mut m, &el).map_err(|e| e.to_string())?;
                }
                ensure_eq!(csr_to_dense(&m)?, exp, "accumulated matrix, step {}", step);
                ensure_eq!(m.nnz(), p.iter().flatten().filter(|b| **b).count(), "pattern size after accumulation");
            }
            _ => {
                if !el.nodes.is_empty() {
                    let k = c.int(0, el.nodes.len() - 1);
                    el.fail_at = Some(k);
                    c.class("element error");
                    match assembler.assemble(&el) {
                        Ok(_) => fail!("error of element {} was not reported", k),
                        Err(e) => ensure!(
                            format!("{:?}", e).contains(&format!("injected failure in element {}", k)),
                            "reported error is not the element's: {:?}",
                            e
                        ),
                    }
                }
            }
        }
    }
    Ok(())
}

fn vector_history(c: &mut Case) -> Res {
    let assembler = VectorAssembler::<f64>::default();
    let steps = c.int(1, 4);
    for step in 0..steps {
        let mut el = IntElements::generate(c, 14, 20, 8, true);
        c.note_debug("elements", &(el.sdim, el.num_nodes, &el.nodes));
        classify(c, &el);
        c.nontrivial_if(is_nontrivial(&el));
        match c.int(0, 2) {
            0 => {
                let v = assembler.assemble_vector(&el).map_err(|e| format!("step {}: unexpected error {}", step, e))?;
                let mut exp = DVector::zeros(el.dim());
                el.add_vector(&mut exp);
                ensure_eq!(v, exp, "assembled vector, step {}", step);
                ensure!(el.take_calls().iter().all(|k| *k == 1), "element vectors not assembled exactly once");
            }
            1 => {
                let salt = c.int(0, 50);
                let mut v = DVector::from_fn(el.dim(), |i, _| el.unit * (((i * 29 + salt) % 11) as f64 - 5.0));
                let mut exp = v.clone();
                el.add_vector(&mut exp);
                el.add_vector(&mut exp);
                c.class("accumulate into existing");
                assembler.assemble_vector_into(&mut v, &el).map_err(|e| e.to_string())?;
                assembler.assemble_vector_into(&mut v, &el).map_err(|e| e.to_string())?;
                ensure_eq!(v, exp, "accumulated vector, step {}", step);
            }
            _ => {
                if !el.nodes.is_empty() {
                    let k = c.int(0, el.nodes.len() - 1);
                    el.fail_at = Some(k);
                    c.class("element error");
                    match assembler.assemble_vector(&el) {
                        Ok(_) => fail!("error of element {} was not reported", k),
                        Err(e) => ensure!(
                            format!("{:?}", e).contains(&format!("injected failure in element {}", k)),
                            "reported error is not the element's: {:?}",
                            e
                        ),
                    }
                }
            }
        }
    }
    Ok(())
}

fn scalar(c: &mut Case) -> Res {
    let mut el = IntElements::generate(c, 10, 40, 4, true);
    c.note_debug("elements", &(el.sdim, el.num_nodes, &el.nodes));
    c.nontrivial_if(el.nodes.len() >= 2);
    let s = assemble_scalar(&el).map_err(|e| e.to_string())?;
    ensure_eq!(s, el.scalar(), "scalar");
    if c.chance(1, 4) {
        el.take_calls();
        #[allow(deprecated)]
        let p = compute_global_potential(&el).map_err(|e| e.to_string())?;
        ensure_eq!(p, el.scalar(), "compute_global_potential");
    }
    ensure!(el.take_calls().iter().all(|k| *k == 1), "element scalars not assembled exactly once");
    if !el.nodes.is_empty() {
        let k = c.int(0, el.nodes.len() - 1);
        el.fail_at = Some(k);
        match assemble_scalar(&el) {
            Ok(_) => fail!("error of element {} was not reported", k),
            Err(e) => ensure!(
                format!("{:?}", e).contains(&format!("injected failure in element {}", k)),
                "reported error is not the element's: {:?}",
                e
            ),
        }
    }
    Ok(())
}

/// gather and scatter between local and global vectors
fn gather_scatter(c: &mut Case) -> Res {
    let s = c.int(1, 4);
    let n = c.int(1, 12);
    let k = c.int(0, 10);
    let idx = c.vec(k, |c| c.int(0, n - 1));
    c.note_debug("s, n, indices", &(s, n, &idx));
    c.nontrivial_if(k >= 2 && s >= 2);
    let global = DVector::from_fn(s * n, |i, _| i as f64 + 1.0);
    let mut local = DVector::repeat(s * k, f64::NAN);
    gather_global_to_local(&global, &mut local, &idx, s);
    for (a, node) in idx.iter().enumerate() {
        for i in 0..s {
            ensure_eq!(local[s * a + i], global[s * node + i], "gathered entry {} of node {}", i, node);
        }
    }
    let mut g = global.clone();
    add_local_to_global(&local, &mut g, &idx, s);
    let mut exp = global.clone();
    for (a, node) in idx.iter().enumerate() {
        for i in 0..s {
            exp[s * node + i] += local[s * a + i];
        }
    }
    ensure_eq!(g, exp, "scattered");
    Ok(())
}

/// Larger meshes with many elements per node
fn large(c: &mut Case) -> Res {
    let el = IntElements::generate(c, 60, 150, 10, false);
    c.note(|| format!("sdim {}, nodes {}, elements {}", el.sdim, el.num_nodes, el.nodes.len()));
    c.nontrivial_if(is_nontrivial(&el) && el.nodes.len() > 20);
    let assembler = CsrAssembler::<f64>::default();
    let m = assembler.assemble(&el).map_err(|e| e.to_string())?;
    check_pattern(m.pattern(), &el.pattern())?;
    let mut exp = DMatrix::zeros(el.dim(), el.dim());
    el.add_matrix(&mut exp);
    ensure!(csr_to_dense(&m)? == exp, "assembled matrix differs from the dense sum");
    let v = VectorAssembler::<f64>::default().assemble_vector(&el).map_err(|e| e.to_string())?;
    let mut exp = DVector::zeros(el.dim());
    el.add_vector(&mut exp);
    ensure!(v == exp, "assembled vector differs from the dense sum");
    Ok(())
}

/// Thousands of elements, or nodes of an element, or elements at a node
fn huge(c: &mut Case) -> Res {
    let assembler = CsrAssembler::<f64>::default();
    let vassembler = VectorAssembler::<f64>::default();
    for _ in 0..c.int(1, 2) {
        let el = IntElements::large(c);
        c.nontrivial_if(el.nodes.len() > 64 || el.num_nodes > 64);
        let mut exp = el.csr();
        let mut m = assembler.assemble(&el).map_err(|e| e.to_string())?;
        same_csr(&m, &exp)?;
        assembler.assemble_into_csr(&mut m, &el).map_err(|e| e.to_string())?;
        exp.2.iter_mut().for_each(|x| *x *= 2.0);
        same_csr(&m, &exp)?;
        let v = vassembler.assemble_vector(&el).map_err(|e| e.to_string())?;
        let mut exp = DVector::zeros(el.dim());
        el.add_vector(&mut exp);
        ensure!(v == exp, "assembled vector differs from the sum");
        ensure_eq!(assemble_scalar(&el).map_err(|e| e.to_string())?, el.scalar(), "scalar");
    }
    Ok(())
}

/// Vectors of the wrong size, matrices that lack an entry that is needed
fn refused(c: &mut Case) -> Res {
    let el = IntElements::generate(c, 8, 8, 5, false);
    c.note_debug("elements", &(el.sdim, el.num_nodes, &el.nodes));
    let n = el.dim();
    let size = if n > 0 && c.bool() { n - c.int(1, n) } else { n + c.int(1, 3) };
    let mut v = DVector::zeros(size);
    let r = catch(|| VectorAssembler::<f64>::default().assemble_vector_into(&mut v, &el).is_ok());
    ensure!(r.is_err(), "a vector with {} instead of {} entries is filled", size, n);
    let mut p = el.pattern();
    let stored: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|(i, j)| p[*i][*j]).collect();
    if stored.is_empty() {
        return Ok(());
    }
    let (i, j) = *c.pick(&stored);
    p[i][j] = false;
    // unrelated entries do not replace it
    for _ in 0..c.int(0, 6) {
        let (k, l) = (c.int(0, n - 1), c.int(0, n - 1));
        if (k, l) != (i, j) {
            p[k][l] = true;
        }
    }
    c.note(|| format!("matrix without the entry ({}, {})", i, j));
    c.nontrivial();
    let mut m = csr_from_pattern(&p, |_, _| 0.0);
    let r = catch(|| CsrAssembler::<f64>::default().assemble_into_csr(&mut m, &el).is_ok());
    ensure!(!matches!(r, Ok(true)), "matrix without entry ({}, {}) is filled", i, j);
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C01",
        rule: "random element collections (solution dimension 1..4, mixed node counts including 0, local and scattered connectivity, unused nodes) with contributions that are small integers times a power of two; histories of up to four assemblies on one assembler, including failing elements and accumulation into matrices with values and a larger pattern; matrices that lack an entry and vectors of the wrong size (refused). Non-trivial: at least two elements that share a node (scalar: two elements; gather: several nodes and components; large: more than 20 elements; huge: more than 64 elements or nodes).",
        assumptions: &["nodes of one element are distinct for matrix assembly (repeated nodes are only used for vectors)", "element assemblers overwrite their whole output"],
        clauses: vec![
            clause("matrix_history", 450_000, 4_500_000, matrix_history),
            clause("vector_history", 1_600_000, 16_000_000, vector_history),
            clause("scalar", 1_500_000, 15_000_000, scalar),
            clause("gather_scatter", 1_500_000, 15_000_000, gather_scatter),
            clause("large", 34_000, 340_000, large),
            clause("refused", 400_000, 4_000_000, refused),
            clause("huge", 3_000, 30_000, huge),
        ],
    })
}
