//! C02: parallel assembly equals serial assembly.
use fenris::assembly::global::*;
use fenris::assembly::local::ElementMatrixAssembler;
use fenris::nalgebra::{DMatrix, DVector};
use fenris_paradis::DisjointSubsets;
use pbt::sparse_util::*;
use pbt::synth::IntElements;
use pbt::*;
use rayon::{ThreadPool, ThreadPoolBuilder};
use std::sync::OnceLock;

fn pools() -> &'static [ThreadPool] {
    static POOLS: OnceLock<Vec<ThreadPool>> = OnceLock::new();
    POOLS.get_or_init(|| [1, 2, 3, 4, 8].iter().map(|n| ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect())
}

/// A valid coloring: the library's, one element per color, or a random first-fit with random color choice
fn gen_coloring(c: &mut Case, el: &IntElements) -> Vec<DisjointSubsets> {
    match c.int(0, 2) {
        0 => {
            c.class("library coloring");
            color_nodes(el)
        }
        1 => {
            c.class("one element per color");
            let order = c.permutation(el.nodes.len());
            order
                .into_iter()
                .map(|e| DisjointSubsets::try_from_disjoint_subsets(vec![el.nodes[e].clone()], vec![e]).expect("one set is disjoint"))
                .collect()
        }
        _ => {
            c.class("random coloring");
            let order = c.permutation(el.nodes.len());
            let mut colors: Vec<(Vec<Vec<usize>>, Vec<usize>)> = vec![];
            for e in order {
                let nodes = &el.nodes[e];
                let fits: Vec<usize> = (0..colors.len())
                    .filter(|k| colors[*k].0.iter().flatten().all(|n| !nodes.contains(n)))
                    .collect();
                if fits.is_empty() || c.chance(1, 4) {
                    colors.push((vec![nodes.clone()], vec![e]));
                } else {
                    let k = *c.pick(&fits);
                    colors[k].0.push(nodes.clone());
                    colors[k].1.push(e);
                }
            }
            colors
                .into_iter()
                .map(|(s, l)| DisjointSubsets::try_from_disjoint_subsets(s, l).expect("disjoint by construction"))
                .collect()
        }
    }
}

fn gen(c: &mut Case) -> IntElements {
    let el = match c.int(0, 5) {
        0 => IntElements::generate(c, 8, 8, 4, false),
        1 | 2 => IntElements::generate(c, 30, 40, 6, false),
        3 | 4 => {
            // many small elements, so that colors have many members
            let n = c.int(10, 150);
            let sdim = c.int(1, 3);
            let ne = c.int(5, 150);
            let nodes = (0..ne)
                .map(|_| {
                    let k = c.int(1, 3);
                    c.distinct(k, n)
                })
                .collect();
            let salt = c.int(0, 100) as i64;
            IntElements::new(sdim, n, nodes, salt, None, c.value_unit())
        }
        _ => IntElements::generate(c, 60, 60, 8, false),
    };
    c.note(|| format!("sdim {}, num_nodes {}, elements {:?}", el.sdim, el.num_nodes, el.nodes));
    el
}

fn nontrivial(c: &mut Case, el: &IntElements, colors: &[DisjointSubsets], pool: usize) {
    let largest = colors.iter().map(|k| k.labels().len()).max().unwrap_or(0);
    c.class_if(largest >= 4, "color with >= 4 elements");
    c.class_if(colors.len() >= 2, ">= 2 colors");
    c.class_if(pool > 0, "more than one thread");
    c.nontrivial_if(el.nodes.len() >= 4 && largest >= 2 && pool > 0);
}

fn matrix(c: &mut Case) -> Res {
    let assembler = CsrParAssembler::<f64>::default();
    for _ in 0..c.int(1, 2) {
        let el = gen(c);
        let colors = gen_coloring(c, &el);
        let pool = c.int(0, 4);
        nontrivial(c, &el, &colors, pool);
        let accumulate = c.bool();
        let r: Res = pools()[pool].install(|| {
            check_pattern(&assembler.assemble_pattern(&el), &el.pattern())?;
            let serial = CsrAssembler::<f64>::default().assemble(&el).map_err(|e| e.to_string())?;
            el.take_calls();
            let mut par = assembler.assemble(&colors, &el).map_err(|e| e.to_string())?;
            ensure!(el.take_calls().iter().all(|k| *k == 1), "element matrices not assembled exactly once");
            let mut exp = DMatrix::zeros(el.dim(), el.dim());
            el.add_matrix(&mut exp);
            ensure!(csr_to_dense(&par)? == exp, "parallel matrix differs from the dense sum");
            ensure!(par == serial, "parallel matrix differs from serial matrix");
            if accumulate {
                let dynamic: &(dyn Sync + ElementMatrixAssembler<f64>) = &el;
                assembler.assemble_into_csr(&mut par, &colors, dynamic).map_err(|e| e.to_string())?;
                el.add_matrix(&mut exp);
                ensure!(csr_to_dense(&par)? == exp, "parallel accumulation differs from the dense sum");
            }
            Ok(())
        });
        r?;
    }
    Ok(())
}

fn vector(c: &mut Case) -> Res {
    let assembler = VectorParAssembler::<f64>::default();
    for _ in 0..c.int(1, 2) {
        let el = gen(c);
        let colors = gen_coloring(c, &el);
        let pool = c.int(0, 4);
        nontrivial(c, &el, &colors, pool);
        let r: Res = pools()[pool].install(|| {
            let serial = VectorAssembler::<f64>::default().assemble_vector(&el).map_err(|e| e.to_string())?;
            el.take_calls();
            let mut par = assembler.assemble_vector(&colors, &el).map_err(|e| e.to_string())?;
            ensure!(el.take_calls().iter().all(|k| *k == 1), "element vectors not assembled exactly once");
            let mut exp = DVector::zeros(el.dim());
            el.add_vector(&mut exp);
            ensure!(par == exp, "parallel vector differs from the dense sum");
            ensure!(par == serial, "parallel vector differs from serial vector");
            assembler.assemble_vector_into(&mut par, &colors, &el).map_err(|e| e.to_string())?;
            el.add_vector(&mut exp);
            ensure!(par == exp, "parallel accumulation differs from the dense sum");
            Ok(())
        });
        r?;
    }
    Ok(())
}

fn scalar(c: &mut Case) -> Res {
    let el = gen(c);
    let pool = c.int(0, 4);
    c.nontrivial_if(el.nodes.len() >= 4 && pool > 0);
    pools()[pool].install(|| {
        let s = par_assemble_scalar(&el).map_err(|e| e.to_string())?;
        ensure_eq!(s, el.scalar(), "parallel scalar");
        if c.chance(1, 4) {
            el.take_calls();
            #[allow(deprecated)]
            let p = par_compute_global_potential(&el).map_err(|e| e.to_string())?;
            ensure_eq!(p, el.scalar(), "par_compute_global_potential");
        }
        ensure!(el.take_calls().iter().all(|k| *k == 1), "element scalars not assembled exactly once");
        Ok(())
    })
}

fn errors(c: &mut Case) -> Res {
    let mut el = gen(c);
    if el.nodes.is_empty() {
        return Ok(());
    }
    let colors = gen_coloring(c, &el);
    let pool = c.int(0, 4);
    let k = c.int(0, el.nodes.len() - 1);
    let good = el.clone();
    el.fail_at = Some(k);
    c.nontrivial_if(el.nodes.len() >= 2);
    let marker = format!("injected failure in element {}", k);
    pools()[pool].install(|| {
        let assembler = CsrParAssembler::<f64>::default();
        let vassembler = VectorParAssembler::<f64>::default();
        match assembler.assemble(&colors, &el) {
            Ok(_) => fail!("error of element {} not reported (matrix)", k),
            Err(e) => ensure!(format!("{:?}", e).contains(&marker), "wrong error {:?}", e),
        }
        match vassembler.assemble_vector(&colors, &el) {
            Ok(_) => fail!("error of element {} not reported (vector)", k),
            Err(e) => ensure!(format!("{:?}", e).contains(&marker), "wrong error {:?}", e),
        }
        match par_assemble_scalar(&el) {
            Ok(_) => fail!("error of element {} not reported (scalar)", k),
            Err(e) => ensure!(format!("{:?}", e).contains(&marker), "wrong error {:?}", e),
        }
        // The assemblers remain usable
        let mut exp = DMatrix::zeros(el.dim(), el.dim());
        good.add_matrix(&mut exp);
        let par = assembler.assemble(&colors, &good).map_err(|e| e.to_string())?;
        ensure!(csr_to_dense(&par)? == exp, "matrix after an error differs from the dense sum");
        let mut exp = DVector::zeros(el.dim());
        good.add_vector(&mut exp);
        let par = vassembler.assemble_vector(&colors, &good).map_err(|e| e.to_string())?;
        ensure!(par == exp, "vector after an error differs from the dense sum");
        Ok(())
    })
}

/// Thousands of elements, or nodes of an element, or colors
fn huge(c: &mut Case) -> Res {
    let assembler = CsrParAssembler::<f64>::default();
    let vassembler = VectorParAssembler::<f64>::default();
    for _ in 0..c.int(1, 2) {
        let mut el = IntElements::large(c);
        let pool = c.int(0, 4);
        c.nontrivial_if((el.nodes.len() > 64 || el.num_nodes > 64) && pool > 0);
        let colors = color_nodes(&el);
        let mut members: Vec<usize> = colors.iter().flat_map(|k| k.labels().iter().copied()).collect();
        members.sort();
        ensure!(members == (0..el.nodes.len()).collect::<Vec<_>>(), "the coloring does not contain every element once");
        let exp = el.csr();
        let mut vexp = DVector::zeros(el.dim());
        el.add_vector(&mut vexp);
        let fail_at = if c.bool() { Some(c.int(0, el.nodes.len() - 1)) } else { None };
        let r: Res = pools()[pool].install(|| {
            if fail_at.is_some() {
                el.fail_at = fail_at;
                ensure!(assembler.assemble(&colors, &el).is_err(), "error of element {:?} not reported (matrix)", fail_at);
                ensure!(vassembler.assemble_vector(&colors, &el).is_err(), "error of element {:?} not reported (vector)", fail_at);
                ensure!(par_assemble_scalar(&el).is_err(), "error of element {:?} not reported (scalar)", fail_at);
                el.fail_at = None;
            }
            let m = assembler.assemble(&colors, &el).map_err(|e| e.to_string())?;
            same_csr(&m, &exp)?;
            let v = vassembler.assemble_vector(&colors, &el).map_err(|e| e.to_string())?;
            ensure!(v == vexp, "parallel vector differs from the sum");
            ensure_eq!(par_assemble_scalar(&el).map_err(|e| e.to_string())?, el.scalar(), "parallel scalar");
            Ok(())
        });
        r?;
    }
    Ok(())
}

/// Vectors of the wrong size, matrices that lack an entry that is needed
fn refused(c: &mut Case) -> Res {
    let el = IntElements::generate(c, 8, 8, 5, false);
    c.note_debug("elements", &(el.sdim, el.num_nodes, &el.nodes));
    let n = el.dim();
    let size = if n > 0 && c.bool() { n - c.int(1, n) } else { n + c.int(1, 3) };
    let mut v = DVector::zeros(size);
    let colors = gen_coloring(c, &el);
    let pool = c.int(0, 4);
    let r = catch(|| pools()[pool].install(|| VectorParAssembler::<f64>::default().assemble_vector_into(&mut v, &colors, &el).is_ok()));
    ensure!(r.is_err(), "a vector with {} instead of {} entries is filled", size, n);
    let mut p = el.pattern();
    let stored: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|(i, j)| p[*i][*j]).collect();
    if stored.is_empty() {
        return Ok(());
    }
    let (i, j) = *c.pick(&stored);
    p[i][j] = false;
    // unrelated entries do not replace it
    for _ in 0..c.int(0, 6) {
        let (k, l) = (c.int(0, n - 1), c.int(0, n - 1));
        if (k, l) != (i, j) {
            p[k][l] = true;
        }
    }
    c.note(|| format!("matrix without the entry ({}, {})", i, j));
    c.nontrivial();
    let mut m = csr_from_pattern(&p, |_, _| 0.0);
    let r = catch(|| pools()[pool].install(|| CsrParAssembler::<f64>::default().assemble_into_csr(&mut m, &colors, &el).is_ok()));
    c.class_if(pool > 0, "several threads");
    ensure!(!matches!(r, Ok(true)), "matrix without entry ({}, {}) is filled", i, j);
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C02",
        rule: "random element collections (up to 150 elements, solution dimension 1..4) with contributions that are small integers times a power of two, valid colorings from three generators (library, one element per color, random), thread pools of 1, 2, 3, 4 and 8 threads, one or two assemblies per assembler. Non-trivial: at least 4 elements, a color with at least two elements and more than one thread (errors: at least two elements; refused: an entry is missing; huge: thousands of elements, more than 64 of them or of nodes).",
        assumptions: &["schedules are sampled (pool sizes, work stealing under load), not enumerated", "nodes of one element are distinct"],
        clauses: vec![
            clause("matrix", 40_000, 400_000, matrix),
            clause("vector", 110_000, 1_100_000, vector),
            clause("scalar", 750_000, 7_500_000, scalar),
            clause("errors", 51_000, 510_000, errors),
            clause("refused", 60_000, 600_000, refused),
            clause("huge", 1_500, 15_000, huge),
        ],
    })
}
