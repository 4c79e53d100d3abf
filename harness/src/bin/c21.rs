//! C21: permutations, Cuthill-McKee orderings and reordering of meshes.
use fenris::connectivity::*;
use fenris::mesh::reorder::*;
use fenris::mesh::*;
use fenris::nalgebra_sparse::pattern::SparsityPattern;
use pbt::elems::*;
use pbt::meshes::*;
use pbt::*;

fn from_vec(c: &mut Case) -> Res {
    let n = c.int(0, 9);
    let v: Vec<usize> = match c.int(0, 3) {
        0 => c.permutation(n),
        1 => {
            // a permutation with one entry changed
            let mut p = c.permutation(n);
            if n > 0 {
                let i = c.int(0, n - 1);
                p[i] = if c.chance(1, 8) { usize::MAX } else { c.int(0, n + 1) };
            }
            p
        }
        2 => c.vec(n, |c| c.int(0, n + 1)),
        _ => {
            // n numbers that are distinct, from a larger range
            let m = n + c.int(0, 2);
            c.distinct(n, m)
        }
    };
    c.note_debug("sequence", &v);
    let mut sorted = v.clone();
    sorted.sort();
    let valid = sorted == (0..n).collect::<Vec<_>>();
    c.nontrivial_if(n > 1);
    c.class(if valid { "permutation" } else if v.iter().any(|x| *x >= n) { "out of range" } else { "repetition" });
    match Permutation::from_vec(v.clone()) {
        Ok(p) => {
            ensure!(valid, "{:?} is accepted as a permutation", v);
            ensure_eq!(p.perm(), &v[..]);
            ensure_eq!(p.len(), n);
        }
        Err(_) => ensure!(!valid, "{:?} is not accepted as a permutation", v),
    }
    Ok(())
}

fn laws(c: &mut Case) -> Res {
    let n = c.int(0, 12);
    let mut model = c.permutation(n);
    let mut p = Permutation::from_vec(model.clone()).map_err(|e| format!("{:?} is rejected: {}", model, e))?;
    let steps = c.int(1, 6);
    let ops = c.vec(steps, |c| c.int(0, 2));
    c.note(|| format!("permutation {:?}, then {:?} (0: reverse, 1: inverse, 2: compose with itself)", model, ops));
    c.nontrivial_if(n > 2 && model != (0..n).collect::<Vec<_>>());
    for op in ops {
        match op {
            0 => {
                p.reverse();
                model.reverse();
            }
            1 => {
                p = p.inverse();
                let mut inv = vec![0; n];
                for (t, s) in model.iter().enumerate() {
                    inv[*s] = t;
                }
                model = inv;
            }
            _ => {
                // target[i] = source[perm[i]], applied to the permutation itself
                let v = p.apply_to_slice(&model);
                model = model.iter().map(|s| model[*s]).collect();
                ensure_eq!(v, model);
                p = Permutation::from_vec(v).map_err(|e| format!("composition is rejected: {}", e))?;
            }
        }
        ensure_eq!(p.perm(), &model[..]);
        ensure_eq!(p.len(), n);
        for i in 0..n {
            ensure_eq!(p.source_index(i), model[i]);
            ensure_eq!(p.inverse().source_index(model[i]), i);
        }
        let data: Vec<String> = (0..n).map(|i| format!("item {}", i)).collect();
        let out = p.apply_to_slice(&data);
        ensure_eq!(out, model.iter().map(|i| data[*i].clone()).collect::<Vec<_>>());
        ensure_eq!(p.inverse().apply_to_slice(&out), data);
        ensure_eq!(p.inverse().inverse(), p);
    }
    Ok(())
}

/// Whether the order is a breadth-first search of the graph, component by component, that appends neighbours by increasing degree
fn check_cm(order: &[usize], adj: &[Vec<usize>], degrees: &[Vec<usize>]) -> Res {
    let n = adj.len();
    let mut s = order.to_vec();
    s.sort();
    ensure!(s == (0..n).collect::<Vec<_>>(), "{:?} is not a permutation of {} vertices", order, n);
    let mut seen = vec![false; n];
    let mut ok = vec![true; degrees.len()];
    let mut end = 0;
    for k in 0..n {
        if k == end {
            // a component is complete
            seen[order[k]] = true;
            end += 1;
        }
        let mut new: Vec<usize> = adj[order[k]].iter().copied().filter(|v| !seen[*v]).collect();
        new.sort();
        ensure!(end + new.len() <= n, "too few vertices");
        let block = &order[end..end + new.len()];
        let mut sorted = block.to_vec();
        sorted.sort();
        ensure!(sorted == new, "{:?} is not a breadth-first order: after vertex {} at position {}, the vertices {:?} should come at position {}", order, order[k], k, new, end);
        for (o, d) in ok.iter_mut().zip(degrees) {
            *o &= block.windows(2).all(|w| d[w[0]] <= d[w[1]]);
        }
        for v in block {
            seen[*v] = true;
        }
        end += block.len();
    }
    ensure!(ok.iter().any(|o| *o), "{:?}: neighbours are not in the order of their degrees {:?}", order, degrees);
    Ok(())
}

fn cm(c: &mut Case) -> Res {
    let n = c.int(0, if c.thorough { 24 } else { 14 });
    let mut a = vec![vec![false; n]; n];
    let mode = c.int(0, 2);
    for i in 0..n {
        a[i][i] = mode == 0 || (mode == 1 && c.bool());
    }
    if n > 1 {
        if c.chance(1, 3) {
            // a path or tree with relabelled vertices, plus a few edges
            let p = c.permutation(n);
            for i in 1..n {
                let j = if c.bool() { i - 1 } else { c.int(0, i - 1) };
                if c.chance(9, 10) {
                    a[p[i]][p[j]] = true;
                    a[p[j]][p[i]] = true;
                }
            }
        }
        let m = c.int(0, 2 * n);
        for _ in 0..m {
            let i = c.int(0, n - 1);
            let j = c.int(0, n - 1);
            if i != j {
                a[i][j] = true;
                a[j][i] = true;
            }
        }
    }
    let mut offsets = vec![0];
    let mut idx = vec![];
    for row in &a {
        idx.extend((0..n).filter(|j| row[*j]));
        offsets.push(idx.len());
    }
    c.note(|| format!("pattern offsets {:?}, indices {:?}", offsets, idx));
    let adj: Vec<Vec<usize>> = (0..n).map(|i| (0..n).filter(|j| *j != i && a[i][*j]).collect()).collect();
    c.nontrivial_if(adj.iter().any(|x| x.len() > 1));
    c.class_if(adj.iter().any(|x| x.is_empty()), "isolated vertices");
    let deg1: Vec<usize> = adj.iter().map(|x| x.len()).collect();
    let deg2: Vec<usize> = a.iter().map(|r| r.iter().filter(|x| **x).count()).collect();
    let pattern = SparsityPattern::try_from_offsets_and_indices(n, n, offsets, idx).unwrap();
    let p = cuthill_mckee(&pattern);
    check_cm(p.perm(), &adj, &[deg1, deg2])?;
    let mut r = p.perm().to_vec();
    r.reverse();
    let rcm = reverse_cuthill_mckee(&pattern);
    ensure!(rcm.perm() == &r[..], "the reversed ordering is {:?}, the ordering is {:?}", rcm.perm(), p.perm());
    Ok(())
}

fn reorder(c: &mut Case) -> Res {
    let kind = *c.pick(&ALL);
    let g = if c.chance(1, 3) {
        // arbitrary connectivity
        let nn = kind.ref_nodes().len();
        let n = nn + c.int(0, 6);
        let k = c.int(0, 5);
        let cells = c.vec(k, |c| c.distinct(nn, n));
        GMesh { kind, verts: c.vec(n, |c| c.vec(kind.gdim(), |c| c.coord(3.0))), cells }
    } else {
        gen_mesh(c, kind, &MeshOpts { max_cells: 20, empty: true, unused: true, ..Default::default() })
    };
    c.note(|| format!("{:?} mesh with vertices {:?} and cells {:?}", g.kind, g.verts, g.cells));
    c.nontrivial_if(g.cells.len() > 1);
    c.class_if(g.used().iter().any(|u| !u), "unused vertices");
    check_reordered(kind, &g)
}

fn check_reordered(kind: Kind, g: &GMesh) -> Res {
    let n = g.verts.len();
    let (vp, cp, new) = for_kind!(kind, C => {
        let mesh = g.to_mesh::<C>();
        let p = reorder_mesh_par(&mesh);
        let new = p.apply(&mesh);
        (p.vertex_permutation().clone(), p.connectivity_permutation().clone(), from_mesh(kind, &new))
    });
    ensure_eq!(vp.len(), n, "length of the vertex permutation");
    ensure_eq!(cp.len(), g.cells.len(), "length of the cell permutation");
    ensure!(vp.apply_to_slice(&g.verts) == new.verts, "the vertices of the reordered mesh are not the permuted vertices");
    ensure_eq!(new.cells.len(), g.cells.len(), "number of cells");
    let mut sorted = cp.perm().to_vec();
    sorted.sort();
    ensure!(sorted == (0..g.cells.len()).collect::<Vec<_>>(), "the cells are not permuted: {:?}", cp.perm());
    for i in 0..new.cells.len() {
        let old: Vec<usize> = new.cells[i].iter().map(|v| if *v < n { vp.source_index(*v) } else { usize::MAX }).collect();
        ensure!(old == g.cells[cp.source_index(i)], "cell {} of the reordered mesh is {:?} (in the old numbering), expected cell {}, which is {:?}", i, old, cp.source_index(i), g.cells[cp.source_index(i)]);
    }
    // the ordering of the vertices is a reversed Cuthill-McKee ordering
    let mut adj = vec![vec![]; n];
    for cell in &g.cells {
        for v in cell {
            for w in cell {
                if v != w {
                    adj[*v].push(*w);
                }
            }
        }
    }
    for x in &mut adj {
        x.sort();
        x.dedup();
    }
    let mut order = vp.perm().to_vec();
    order.reverse();
    let deg = adj.iter().map(|x| x.len()).collect();
    check_cm(&order, &adj, &[deg])?;
    // cells are in the order of their lowest new vertex
    let low: Vec<usize> = new.cells.iter().map(|x| *x.iter().min().unwrap()).collect();
    ensure!(low.windows(2).all(|w| w[0] <= w[1]), "cells are not ordered by their lowest vertices {:?}", low);
    Ok(())
}

/// Thousands of objects, high degrees, deep graphs
fn huge(c: &mut Case) -> Res {
    match c.int(0, 2) {
        0 => {
            let n = c.size(100_000).max(2);
            let mut d = c.dice();
            let mut v = d.permutation(n);
            c.note(|| format!("permutation of {}", n));
            c.nontrivial_if(n > 64);
            let p = Permutation::from_vec(v.clone()).map_err(|e| format!("a permutation is rejected: {}", e))?;
            let data: Vec<usize> = (0..n).map(|i| 3 * i + 1).collect();
            let out = p.apply_to_slice(&data);
            let inv = p.inverse();
            for i in 0..n {
                ensure_eq!(p.source_index(i), v[i], "source_index({})", i);
                ensure_eq!(out[i], data[v[i]], "item {}", i);
                ensure_eq!(inv.source_index(v[i]), i, "inverse at {}", v[i]);
            }
            let mut r = p.clone();
            r.reverse();
            for i in 0..n {
                ensure_eq!(r.source_index(i), v[n - 1 - i], "reversed at {}", i);
            }
            // one wrong entry, possibly close to an end
            let i = match c.int(0, 2) {
                0 => c.int(0, 2).min(n - 1),
                1 => n - 1 - c.int(0, 2).min(n - 1),
                _ => c.int(0, n - 1),
            };
            let wrong = if c.bool() { n + c.int(0, 2) } else { v[(i + c.int(1, n - 1)) % n] };
            v[i] = wrong;
            ensure!(Permutation::from_vec(v).is_err(), "entry {} repeated or out of range ({}) is accepted", i, wrong);
            Ok(())
        }
        1 => {
            let n = c.size(20_000).max(1);
            let style = c.int(0, 3);
            let extra = c.size(n);
            let parts = c.size(20).max(1);
            let mut d = c.dice();
            let p = if c.bool() { d.permutation(n) } else { (0..n).collect() };
            let mut adj = vec![vec![]; n];
            let mut edge = |i: usize, j: usize| {
                if i != j {
                    adj[p[i]].push(p[j]);
                    adj[p[j]].push(p[i]);
                }
            };
            for i in 1..n {
                // components of consecutive vertices
                if i % (n / parts + 1) != 0 {
                    match style {
                        0 => edge(i, i - 1),
                        1 => edge(i, d.int(0, i - 1)),
                        2 => edge(i, 0),
                        _ => edge(i, i / 2),
                    }
                }
            }
            for _ in 0..extra {
                edge(d.int(0, n - 1), d.int(0, n - 1));
            }
            let mut offsets = vec![0];
            let mut idx = vec![];
            for (i, x) in adj.iter_mut().enumerate() {
                x.sort();
                x.dedup();
                let mut row = x.clone();
                row.push(i);
                row.sort();
                idx.extend(row);
                offsets.push(idx.len());
            }
            c.note(|| format!("{} vertices, style {}, {} more edges", n, style, extra));
            c.nontrivial_if(n > 64);
            c.class_if(adj.iter().any(|x| x.len() > 256), "degree > 256");
            let deg: Vec<usize> = adj.iter().map(|x| x.len()).collect();
            let pattern = SparsityPattern::try_from_offsets_and_indices(n, n, offsets, idx).unwrap();
            let p = cuthill_mckee(&pattern);
            check_cm(p.perm(), &adj, &[deg]).map_err(|e| brief(e))?;
            let mut r = p.perm().to_vec();
            r.reverse();
            ensure!(reverse_cuthill_mckee(&pattern).perm() == &r[..], "the reverse ordering is not the reversed ordering");
            Ok(())
        }
        _ => {
            let kind = *c.pick(&[Kind::Tri3, Kind::Quad4, Kind::Tet4, Kind::Hex8]);
            let o = MeshOpts { max_cells: 1001 + c.size(2000), ..Default::default() };
            let g = gen_mesh(c, kind, &o);
            c.note(|| format!("{:?} mesh with {} vertices and {} cells", g.kind, g.verts.len(), g.cells.len()));
            c.nontrivial_if(g.cells.len() > 64);
            check_reordered(kind, &g).map_err(|e| brief(e))
        }
    }
}

fn brief(e: Stop) -> Stop {
    match e {
        Stop::Fail(m) => Stop::Fail(m.chars().take(400).collect()),
        o => o,
    }
}

fn main() {
    pbt::main(Property {
        id: "C21",
        rule: "sequences of more than one index (from_vec), permutations of more than two objects other than the identity (laws), a vertex with two neighbours (cm), more than one cell (reorder), more than 64 of up to 100000 objects, 20000 vertices of a graph or 3000 cells (huge)",
        assumptions: &["the vertex from which a component is traversed is the implementation's choice"],
        clauses: vec![
            clause("from_vec", 3_000_000, 30_000_000, from_vec),
            clause("laws", 1_500_000, 15_000_000, laws),
            clause("cm", 3_000_000, 30_000_000, cm),
            clause("reorder", 140_000, 1_400_000, reorder),
            clause("huge", 6_000, 60_000, huge),
        ],
    })
}
