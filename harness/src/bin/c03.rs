//! C03: colorings and disjoint parallel access.
use fenris::assembly::global::color_nodes;
use fenris_nested_vec::NestedVec;
use fenris_paradis::adapter::BlockAdapter;
use fenris_paradis::coloring::sequential_greedy_coloring;
use fenris_paradis::{DisjointSubsets, ParallelIndexedAccess, ParallelIndexedCollection, SubsetAccess};
use fenris_sparse::ParallelCsrRowCollection;
use nalgebra_sparse::pattern::SparsityPattern;
use nalgebra_sparse::CsrMatrix;
use pbt::synth::IntElements;
use pbt::*;
use rayon::prelude::*;
use rayon::{ThreadPool, ThreadPoolBuilder};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

fn pools() -> &'static [ThreadPool] {
    static POOLS: OnceLock<Vec<ThreadPool>> = OnceLock::new();
    POOLS.get_or_init(|| [1, 2, 3, 8].iter().map(|n| ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect())
}

/// Arbitrary lists (members may be empty, indices repeated or large)
fn gen_lists(c: &mut Case) -> Vec<Vec<usize>> {
    let n = match c.int(0, 3) {
        0 => c.int(0, 4),
        1 | 2 => c.int(0, 20),
        _ => c.int(0, 60),
    };
    let max = *c.pick(&[2usize, 5, 12, 30, 100, 1000]);
    let arity = *c.pick(&[1usize, 2, 3, 4, 6]);
    c.vec(n, |c| {
        let k = c.int(0, arity);
        c.vec(k, |c| c.int(0, max))
    })
}

/// Lists where no index occurs in two lists; labels are arbitrary
fn gen_disjoint(c: &mut Case) -> (Vec<Vec<usize>>, Vec<usize>) {
    let n = match c.int(0, 3) {
        0 => c.int(0, 4),
        _ => c.int(0, 24),
    };
    let mut pool_size = n * 3 + c.int(0, 10);
    if n == 0 {
        pool_size = 0;
    }
    let perm = c.permutation(pool_size);
    let mut next = 0;
    let repeats = c.chance(1, 4);
    let empties = c.chance(1, 3);
    let lists: Vec<Vec<usize>> = (0..n)
        .map(|_| {
            let k = c.int(if empties { 0 } else { 1 }, 3);
            let mut l = perm[next..next + k].to_vec();
            next += k;
            if repeats && k > 0 && c.bool() {
                let r = *c.pick(&l);
                let pos = c.int(0, k);
                l.insert(pos, r);
            }
            l
        })
        .collect();
    let labels = if c.bool() { (0..n).collect() } else { c.vec(n, |c| c.int(0, 50)) };
    (lists, labels)
}

fn model_disjoint(lists: &[Vec<usize>]) -> bool {
    let mut owner = BTreeMap::new();
    lists.iter().enumerate().all(|(i, l)| l.iter().all(|x| *owner.entry(*x).or_insert(i) == i))
}

fn max_index(lists: &[Vec<usize>]) -> Option<usize> {
    lists.iter().flatten().copied().max()
}

fn brief<T: std::fmt::Debug>(x: &[T]) -> String {
    if x.len() <= 80 {
        format!("{:?}", x)
    } else {
        format!("{:?} .. ({})", &x[..8], x.len())
    }
}

/// The bounds check of the parallel access must be exact
fn check_bounds(d: &DisjointSubsets, lists: &[Vec<usize>]) -> Res {
    if let Some(m) = max_index(lists) {
        let mut ok = vec![0u8; m + 1];
        let n = d.subsets_par_iter(&mut ok[..]).count();
        ensure_eq!(n, lists.len(), "number of subsets iterated");
        let mut short = vec![0u8; m];
        ensure!(
            catch(|| d.subsets_par_iter(&mut short[..]).len()).is_err(),
            "access beyond the end of the storage is not refused (max index {}, storage length {})",
            m,
            m
        );
    } else {
        let mut none: Vec<u8> = vec![];
        ensure_eq!(d.subsets_par_iter(&mut none[..]).count(), lists.len(), "number of subsets iterated");
    }
    Ok(())
}

fn check_coloring(lists: &[Vec<usize>], colors: &[DisjointSubsets]) -> Res {
    let mut seen = vec![0; lists.len()];
    for (k, color) in colors.iter().enumerate() {
        ensure_eq!(color.subsets().len(), color.labels().len(), "labels of color {}", k);
        let mut used = BTreeMap::new();
        let mut sets = vec![];
        for (label, set) in color.labels().iter().zip(color.subsets().iter()) {
            ensure!(*label < lists.len(), "label {} is not a list", label);
            seen[*label] += 1;
            ensure_eq!(set, &lists[*label][..], "members of list {}", label);
            for x in set {
                let o = *used.entry(*x).or_insert(*label);
                ensure!(o == *label, "lists {} and {} of color {} share node {}", o, label, k, x);
            }
            sets.push(set.to_vec());
        }
        check_bounds(color, &sets)?;
    }
    ensure!(seen.iter().all(|s| *s == 1), "lists are not in exactly one color each: {:?}", seen);
    ensure!(colors.iter().all(|k| k.labels().len() > 0), "empty color");
    Ok(())
}

fn coloring(c: &mut Case) -> Res {
    let lists = gen_lists(c);
    c.note_debug("lists", &lists);
    let shared = !model_disjoint(&lists);
    c.nontrivial_if(shared && lists.len() >= 3);
    c.class_if(lists.iter().any(|l| l.is_empty()), "empty list");
    c.class_if(lists.iter().any(|l| l.iter().collect::<BTreeSet<_>>().len() < l.len()), "repetition inside of a list");
    let nested = NestedVec::from(&lists);
    check_coloring(&lists, &sequential_greedy_coloring(&nested))?;
    let el = IntElements::new(1, max_index(&lists).map_or(0, |m| m + 1), lists.clone(), 0, None, 1.0);
    check_coloring(&lists, &color_nodes(&el))
}

fn accept(c: &mut Case) -> Res {
    let lists = if c.bool() {
        let (mut lists, _) = gen_disjoint(c);
        // Plant one conflict, possibly
        if c.bool() && lists.len() >= 2 {
            let i = c.int(0, lists.len() - 1);
            let j = c.int(0, lists.len() - 1);
            if !lists[i].is_empty() {
                let x = *c.pick(&lists[i]);
                let pos = c.int(0, lists[j].len());
                lists[j].insert(pos, x);
            }
        }
        lists
    } else {
        gen_lists(c)
    };
    let labels = c.vec(lists.len(), |c| c.int(0, 9));
    c.note_debug("lists", &lists);
    let expected = model_disjoint(&lists);
    c.class_if(expected, "disjoint");
    c.class_if(!expected, "overlapping");
    c.nontrivial_if(lists.iter().filter(|l| !l.is_empty()).count() >= 2);
    match DisjointSubsets::try_from_disjoint_subsets(&lists, labels.clone()) {
        Ok(d) => {
            ensure!(expected, "overlapping lists were accepted");
            ensure_eq!(d.subsets(), &NestedVec::from(&lists), "subsets");
            ensure_eq!(d.labels(), &labels[..], "labels");
            check_bounds(&d, &lists)?;
            ensure_eq!(d.into_subsets(), NestedVec::from(&lists), "into_subsets");
        }
        Err(_) => ensure!(!expected, "disjoint lists were refused"),
    }
    Ok(())
}

#[derive(Debug, Clone, Copy)]
enum Op {
    Rev,
    Take(usize),
    Skip(usize),
    StepBy(usize),
    MinLen(usize),
    MaxLen(usize),
    ZipLen(usize),
}

#[derive(Debug, Clone, Copy)]
enum Leaf {
    Collect,
    ForEach,
    Enumerate,
    Chunks(usize),
    FoldReduce,
}

fn gen_op(c: &mut Case, n: usize) -> Op {
    let k = match c.int(0, 2) {
        0 => n,
        1 => c.int(0, n + 2),
        _ => c.int(0, 3),
    };
    match c.int(0, 6) {
        0 => Op::MinLen(k.max(1)),
        1 => Op::MaxLen(k.max(1)),
        2 => Op::Rev,
        3 => Op::Take(k),
        4 => Op::Skip(k),
        5 => Op::StepBy(k.max(1)),
        _ => Op::ZipLen(k),
    }
}

fn model_op(m: &mut Vec<usize>, op: Op) {
    match op {
        Op::Rev => m.reverse(),
        Op::Take(n) | Op::ZipLen(n) => m.truncate(n),
        Op::Skip(n) => {
            let n = n.min(m.len());
            m.drain(..n);
        }
        Op::StepBy(n) => *m = m.iter().copied().step_by(n).collect(),
        Op::MinLen(_) | Op::MaxLen(_) => {}
    }
}

fn leaf<I, R>(it: I, leaf: Leaf, f: &(dyn Fn(I::Item) -> R + Sync)) -> (Vec<R>, bool)
where
    I: IndexedParallelIterator,
    R: Send,
{
    match leaf {
        Leaf::Collect => {
            let mut v = vec![];
            it.map(f).collect_into_vec(&mut v);
            (v, true)
        }
        Leaf::ForEach => {
            let m = std::sync::Mutex::new(vec![]);
            it.for_each(|x| {
                let r = f(x);
                m.lock().unwrap().push(r);
            });
            (m.into_inner().unwrap(), false)
        }
        Leaf::Enumerate => {
            let v: Vec<(usize, R)> = it.enumerate().map(|(i, x)| (i, f(x))).collect();
            let ok = v.iter().enumerate().all(|(k, (i, _))| k == *i);
            assert!(ok, "enumerate is out of order");
            (v.into_iter().map(|x| x.1).collect(), true)
        }
        Leaf::Chunks(k) => {
            let v: Vec<Vec<R>> = it.chunks(k).map(|ch| ch.into_iter().map(f).collect()).collect();
            (v.into_iter().flatten().collect(), true)
        }
        Leaf::FoldReduce => {
            let v = it
                .fold(Vec::new, |mut v, x| {
                    v.push(f(x));
                    v
                })
                .reduce(Vec::new, |mut a, b| {
                    a.extend(b);
                    a
                });
            (v, true)
        }
    }
}

/// One adaptor, any way to consume
fn apply1<I, R>(it: I, op: Option<Op>, l: Leaf, f: &(dyn Fn(I::Item) -> R + Sync)) -> (Vec<R>, bool)
where
    I: IndexedParallelIterator,
    R: Send,
{
    match op {
        None => leaf(it, l, f),
        Some(Op::Rev) => leaf(it.rev(), l, f),
        Some(Op::Take(n)) => leaf(it.take(n), l, f),
        Some(Op::Skip(n)) => leaf(it.skip(n), l, f),
        Some(Op::StepBy(n)) => leaf(it.step_by(n), l, f),
        Some(Op::MinLen(n)) => leaf(it.with_min_len(n), l, f),
        Some(Op::MaxLen(n)) => leaf(it.with_max_len(n), l, f),
        Some(Op::ZipLen(n)) => leaf(it.zip(0..n), l, &|(x, _)| f(x)),
    }
}

fn collect<I, R>(it: I, f: &(dyn Fn(I::Item) -> R + Sync)) -> (Vec<R>, bool)
where
    I: IndexedParallelIterator,
    R: Send,
{
    let mut v = vec![];
    it.map(f).collect_into_vec(&mut v);
    (v, true)
}

fn collect1<I, R>(it: I, op: Op, f: &(dyn Fn(I::Item) -> R + Sync)) -> (Vec<R>, bool)
where
    I: IndexedParallelIterator,
    R: Send,
{
    match op {
        Op::Rev => collect(it.rev(), f),
        Op::Take(n) => collect(it.take(n), f),
        Op::Skip(n) => collect(it.skip(n), f),
        Op::StepBy(n) => collect(it.step_by(n), f),
        Op::MinLen(n) => collect(it.with_min_len(n), f),
        Op::MaxLen(n) => collect(it.with_max_len(n), f),
        Op::ZipLen(n) => collect(it.zip(0..n), &|(x, _)| f(x)),
    }
}

/// Two adaptors are collected; fewer can be consumed in any way
fn apply2<I, R>(it: I, ops: &[Op], l: Leaf, f: &(dyn Fn(I::Item) -> R + Sync)) -> (Vec<R>, bool)
where
    I: IndexedParallelIterator,
    R: Send,
{
    if ops.len() < 2 {
        return apply1(it, ops.get(0).copied(), l, f);
    }
    let next = ops[1];
    match ops[0] {
        Op::Rev => collect1(it.rev(), next, f),
        Op::Take(n) => collect1(it.take(n), next, f),
        Op::Skip(n) => collect1(it.skip(n), next, f),
        Op::StepBy(n) => collect1(it.step_by(n), next, f),
        Op::MinLen(n) => collect1(it.with_min_len(n), next, f),
        Op::MaxLen(n) => collect1(it.with_max_len(n), next, f),
        Op::ZipLen(n) => collect1(it.zip(0..n), next, &|(x, _)| f(x)),
    }
}

type Visit = (usize, Vec<usize>, Vec<i64>);

/// Runs the iterator with adaptors and compares what was visited with the model.
fn drive<'a, S, F>(c: &mut Case, d: &'a DisjointSubsets, lists: &[Vec<usize>], storage: &'a mut S, f: F) -> Result<(Vec<usize>, Vec<Visit>), Stop>
where
    S: ?Sized + ParallelIndexedCollection<'a>,
    S::Access: Send + Clone,
    F: Fn(SubsetAccess<'a, S::Access>) -> Visit + Sync + Send,
{
    let n = lists.len();
    let num_ops = c.int(0, 2);
    let ops: Vec<Op> = (0..num_ops).map(|_| gen_op(c, n)).collect();
    let l = match c.int(0, 4) {
        0 => Leaf::Collect,
        1 => Leaf::ForEach,
        2 => Leaf::Enumerate,
        3 => Leaf::Chunks(c.int(1, n + 1)),
        _ => Leaf::FoldReduce,
    };
    let pool = c.int(0, 3);
    c.note(|| format!("ops {:?}, leaf {:?}, pool {}", ops, l, pool));
    c.class_if(ops.iter().any(|o| matches!(o, Op::Take(k) | Op::Skip(k) | Op::ZipLen(k) if *k >= n)), "take/skip/zip of everything");
    c.class_if(pool > 0, "several threads");
    let mut model: Vec<usize> = (0..n).collect();
    for op in &ops {
        model_op(&mut model, *op);
    }
    c.nontrivial_if(model.len() >= 2);
    let it = d.subsets_par_iter(storage);
    ensure_eq!(it.len(), n, "length of the iterator");
    let (mut visits, ordered) = pools()[pool].install(|| apply2(it, &ops, l, &f));
    let mut expected: Vec<(usize, Vec<usize>)> = model.iter().map(|i| (d.labels()[*i], lists[*i].clone())).collect();
    let res = visits.clone();
    if !ordered {
        visits.sort();
        expected.sort();
    }
    let got: Vec<(usize, Vec<usize>)> = visits.iter().map(|v| (v.0, v.1.clone())).collect();
    ensure_eq!(got, expected, "visited subsets (ops {:?}, leaf {:?})", ops, l);
    Ok((model, res))
}

fn access_slice(c: &mut Case) -> Res {
    let (lists, labels) = gen_disjoint(c);
    on_slice(c, lists, labels)
}

fn on_slice(c: &mut Case, lists: Vec<Vec<usize>>, labels: Vec<usize>) -> Res {
    c.note(|| format!("lists {} labels {}", brief(&lists), brief(&labels)));
    let d = DisjointSubsets::try_from_disjoint_subsets(&lists, labels).map_err(|_| "refused".to_string())?;
    let len = max_index(&lists).map_or(0, |m| m + 1) + c.int(0, 2);
    let mut data: Vec<i64> = (0..len as i64).map(|i| 100 * i).collect();
    let (model, visits) = drive(c, &d, &lists, &mut data[..], |mut s| {
        let idx = s.global_indices().to_vec();
        assert_eq!(s.len(), idx.len());
        let vals = (0..s.len()).map(|i| *s.get(i)).collect();
        for i in 0..s.len() {
            *s.get_mut(i) += 1;
        }
        (s.label(), idx, vals)
    })?;
    for (_, idx, vals) in &visits {
        let exp: Vec<i64> = idx.iter().map(|i| 100 * *i as i64).collect();
        ensure_eq!(vals, &exp, "values read through a subset");
    }
    let mut exp: Vec<i64> = (0..len as i64).map(|i| 100 * i).collect();
    for k in model {
        for i in &lists[k] {
            exp[*i] += 1;
        }
    }
    ensure_eq!(data, exp, "storage after the parallel iteration");
    Ok(())
}

fn access_blocks(c: &mut Case) -> Res {
    let (lists, labels) = gen_disjoint(c);
    on_blocks(c, lists, labels)
}

fn on_blocks(c: &mut Case, lists: Vec<Vec<usize>>, labels: Vec<usize>) -> Res {
    let b = c.int(1, 4);
    c.note(|| format!("lists {} labels {} block size {}", brief(&lists), brief(&labels), b));
    let d = DisjointSubsets::try_from_disjoint_subsets(&lists, labels).map_err(|_| "refused".to_string())?;
    let nblocks = max_index(&lists).map_or(0, |m| m + 1) + c.int(0, 2);
    let init: Vec<i64> = (0..(nblocks * b) as i64).map(|i| 100 * i).collect();
    let mut data = init.clone();
    let mut adapter = BlockAdapter::with_block_size(&mut data[..], b);
    ensure_eq!(ParallelIndexedCollection::len(&adapter), nblocks, "number of blocks");
    let (model, visits) = drive(c, &d, &lists, &mut adapter, |mut s| {
        let idx = s.global_indices().to_vec();
        let mut vals = vec![];
        for i in 0..s.len() {
            let block = s.get(i);
            assert_eq!(block.len(), b);
            for j in 0..b {
                vals.push(*block.index(j));
                assert_eq!(block.get(j), Some(block.index(j)));
            }
            assert!(block.get(b).is_none(), "block access out of range");
        }
        for i in 0..s.len() {
            let mut block = s.get_mut(i);
            assert_eq!(block.len(), b);
            for j in 0..b {
                *block.index_mut(j) += 1 + j as i64;
                let v = *block.index(j);
                assert_eq!(block.get(j).copied(), Some(v));
                assert_eq!(block.get_mut(j).copied(), Some(v));
            }
            assert!(block.get(b).is_none() && block.get_mut(b).is_none(), "block access out of range");
        }
        (s.label(), idx, vals)
    })?;
    for (_, idx, vals) in &visits {
        let exp: Vec<i64> = idx.iter().flat_map(|i| (0..b).map(move |j| 100 * (i * b + j) as i64)).collect();
        ensure_eq!(vals, &exp, "values read through blocks");
    }
    let mut exp = init;
    for k in model {
        for i in &lists[k] {
            for j in 0..b {
                exp[*i * b + j] += 1 + j as i64;
            }
        }
    }
    ensure_eq!(data, exp, "storage after the parallel iteration over blocks");
    Ok(())
}

/// Threads that work on disjoint parts of a slice by unchecked access
fn access_raw(c: &mut Case) -> Res {
    let n = c.int(0, 24);
    let mut cuts: Vec<usize> = vec![0, n];
    let more = c.int(0, 4);
    cuts.extend(c.vec(more, |c| c.int(0, n)));
    cuts.sort_unstable();
    let mut parts: Vec<std::ops::Range<usize>> = cuts.windows(2).map(|w| w[0]..w[1]).collect();
    let order = c.permutation(parts.len());
    parts = order.iter().map(|i| parts[*i].clone()).collect();
    let single = c.bool();
    c.note_debug("ranges", &parts);
    c.nontrivial_if(parts.iter().filter(|p| !p.is_empty()).count() > 1);
    let mut data: Vec<i64> = (0..n as i64).map(|i| 100 * i).collect();
    let pool = &pools()[c.int(0, pools().len() - 1)];
    let bad = {
        let slice = &mut data[..];
        ensure_eq!(ParallelIndexedCollection::len(slice), n, "length of the slice");
        // Sound: the ranges are disjoint, the access does not outlive the slice
        let access = unsafe { slice.create_access() };
        let work = |(k, r): (usize, &std::ops::Range<usize>)| -> Option<String> {
            let access = access.clone();
            if single {
                for i in r.clone() {
                    let v = unsafe { *access.get_unchecked(i) };
                    if v != 100 * i as i64 {
                        return Some(format!("entry {} is {}", i, v));
                    }
                    unsafe { *access.get_unchecked_mut(i) += 1 + k as i64 };
                }
            } else {
                let part = unsafe { access.subslice_mut(r.clone()) };
                if part.len() != r.len() {
                    return Some(format!("{} entries for the range {:?}", part.len(), r));
                }
                for (x, i) in part.iter_mut().zip(r.clone()) {
                    if *x != 100 * i as i64 {
                        return Some(format!("entry {} of {:?} is {}", i, r, x));
                    }
                    *x += 1 + k as i64;
                }
            }
            None
        };
        pool.install(|| parts.par_iter().enumerate().filter_map(work).collect::<Vec<_>>())
    };
    ensure!(bad.is_empty(), "{:?}", bad);
    let mut want: Vec<i64> = (0..n as i64).map(|i| 100 * i).collect();
    for (k, r) in parts.iter().enumerate() {
        for i in r.clone() {
            want[i] += 1 + k as i64;
        }
    }
    ensure_eq!(data, want, "slice after the work on disjoint ranges");
    Ok(())
}

fn gen_csr(c: &mut Case, rows: usize) -> CsrMatrix<i64> {
    let cols = c.int(1, 6);
    let mut offsets = vec![0];
    let mut idx = vec![];
    let mut dice = c.dice();
    for _ in 0..rows {
        for j in 0..cols {
            if if rows > 200 { dice.below(5) < 2 } else { c.chance(2, 5) } {
                idx.push(j);
            }
        }
        offsets.push(idx.len());
    }
    let n = idx.len();
    let p = SparsityPattern::try_from_offsets_and_indices(rows, cols, offsets, idx).unwrap();
    CsrMatrix::try_from_pattern_and_values(p, (0..n as i64).map(|i| 100 * i).collect()).unwrap()
}

fn access_csr(c: &mut Case) -> Res {
    let (lists, labels) = gen_disjoint(c);
    on_csr(c, lists, labels)
}

fn on_csr(c: &mut Case, lists: Vec<Vec<usize>>, labels: Vec<usize>) -> Res {
    // Row access hands out mutable rows: a repeated row in one list is still only borrowed one at a time
    let d = DisjointSubsets::try_from_disjoint_subsets(&lists, labels).map_err(|_| "refused".to_string())?;
    let rows = max_index(&lists).map_or(0, |m| m + 1) + c.int(0, 2);
    let init = gen_csr(c, rows);
    c.note(|| format!("lists {} offsets {} columns {}", brief(&lists), brief(init.row_offsets()), brief(init.col_indices())));
    let mut csr = init.clone();
    let mut coll = ParallelCsrRowCollection(&mut csr);
    ensure_eq!(ParallelIndexedCollection::len(&coll), rows, "number of rows");
    let (model, visits) = drive(c, &d, &lists, &mut coll, |mut s| {
        let idx = s.global_indices().to_vec();
        let mut vals = vec![];
        for i in 0..s.len() {
            let row = s.get(i);
            assert_eq!(row.nnz(), row.values().len());
            vals.push(row.nnz() as i64);
            vals.extend(row.col_indices().iter().map(|j| *j as i64));
            vals.extend(row.values().iter().copied());
        }
        for i in 0..s.len() {
            let mut row = s.get_mut(i);
            let nnz = row.nnz();
            let (cols, values) = row.cols_and_values_mut();
            assert_eq!((cols.len(), values.len()), (nnz, nnz));
            for (j, v) in cols.iter().zip(values) {
                *v += 1 + *j as i64;
            }
            for v in row.values_mut() {
                *v += 50;
            }
        }
        (s.label(), idx, vals)
    })?;
    for (_, idx, vals) in &visits {
        let mut exp = vec![];
        for i in idx {
            let r = init.row(*i);
            exp.push(r.nnz() as i64);
            exp.extend(r.col_indices().iter().map(|j| *j as i64));
            exp.extend(r.values().iter().copied());
        }
        ensure_eq!(vals, &exp, "rows read through a subset");
    }
    let mut exp = init;
    for k in model {
        for i in &lists[k] {
            let mut r = exp.row_mut(*i);
            let (cols, vals) = r.cols_and_values_mut();
            for (j, v) in cols.iter().zip(vals) {
                *v += 51 + *j as i64;
            }
        }
    }
    ensure!(csr == exp, "matrix after the parallel iteration over rows: {:?}, expected {:?}", csr, exp);
    Ok(())
}

/// Thousands of lists, or members of a list, or lists with a common member; high numbers
fn huge(c: &mut Case) -> Res {
    let n = c.size(4000);
    let arity = if c.chance(1, 4) { c.size(400).min(200_000 / n.max(1)) } else { c.int(1, 4) };
    let limit = (n * arity).max(1) + c.size(100_000);
    let mut dice = c.dice();
    c.note(|| format!("{} lists with up to {} members below {}", n, arity, limit));
    c.nontrivial_if(n * arity > 100);
    if c.bool() {
        // colorings of at most some hundreds of colors: their bounds are checked one by one
        let n = n.min(1200);
        let star = c.bool();
        let lists: Vec<Vec<usize>> = (0..n)
            .map(|_| {
                let k = dice.int(0, arity);
                let mut l: Vec<usize> = (0..k).map(|_| dice.int(0, limit - 1)).collect();
                if star && k > 0 {
                    l[k / 2] = 0;
                }
                l
            })
            .collect();
        c.class_if(star && n > 128, "more than a hundred colors");
        check_coloring(&lists, &sequential_greedy_coloring(&NestedVec::from(&lists)))?;
        let el = IntElements::new(1, max_index(&lists).map_or(0, |m| m + 1), lists.clone(), 0, None, 1.0);
        return check_coloring(&lists, &color_nodes(&el));
    }
    let members = dice.distinct(n * arity, limit);
    let mut next = 0;
    let mut lists: Vec<Vec<usize>> = (0..n)
        .map(|_| {
            let k = dice.int(0, arity);
            next += k;
            members[next - k..next].to_vec()
        })
        .collect();
    let labels: Vec<usize> = if c.bool() { (0..n).collect() } else { (0..n).map(|_| dice.int(0, 100_000)).collect() };
    match c.int(0, 5) {
        0 | 1 => {
            if n > 1 && c.bool() {
                let (i, j) = (c.int(0, n - 1), c.int(0, n - 1));
                if let Some(x) = lists[i].first().copied() {
                    lists[j].push(x);
                }
            }
            let expected = model_disjoint(&lists);
            c.class(if expected { "disjoint" } else { "overlapping" });
            let r = DisjointSubsets::try_from_disjoint_subsets(&lists, labels);
            ensure!(r.is_ok() == expected, "accepted: {}, disjoint: {}", r.is_ok(), expected);
            match r {
                Ok(d) => check_bounds(&d, &lists),
                Err(_) => Ok(()),
            }
        }
        2 | 3 => on_slice(c, lists, labels),
        4 => on_blocks(c, lists, labels),
        _ => on_csr(c, lists, labels),
    }
}

fn main() {
    pbt::main(Property {
        id: "C03",
        rule: "random index lists (0..60 lists, in huge up to 4000, empty members, repeated and large indices), disjoint lists with arbitrary labels, storages (slice, blocks of 1..4, CSR rows), up to two rayon adaptors (rev, take, skip, step_by, zip, min/max length) with arguments around the length and five ways to consume, in pools of 1, 2, 3 and 8 threads. Non-trivial: colorings of at least 3 lists that share nodes; acceptance with at least two non-empty lists; accesses that visit at least two subsets.",
        assumptions: &["schedules are sampled through pool sizes, splitting hints and repetition"],
        clauses: vec![
            clause("coloring", 160_000, 1_600_000, coloring),
            clause("accept", 800_000, 8_000_000, accept),
            clause("access_slice", 690_000, 6_900_000, access_slice),
            clause("access_blocks", 520_000, 5_200_000, access_blocks),
            clause("access_raw", 400_000, 4_000_000, access_raw),
            clause("access_csr", 480_000, 4_800_000, access_csr),
            clause("huge", 12_000, 120_000, huge),
        ],
    })
}
