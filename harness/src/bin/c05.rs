//! C05: ragged array container behaves like a vector of vectors over every history of operations.
use fenris_nested_vec::NestedVec;
use pbt::*;

type Model = Vec<Vec<i64>>;

fn compare(nv: &NestedVec<i64>, model: &Model) -> Res {
    ensure_eq!(nv.len(), model.len(), "len");
    let got: Vec<Vec<i64>> = nv.iter().map(|a| a.to_vec()).collect();
    ensure_eq!(&got, model, "iter");
    ensure_eq!(nv.total_num_elements(), model.iter().map(|a| a.len()).sum::<usize>(), "total_num_elements");
    let flat: Vec<i64> = nv.iter_array_elements().copied().collect();
    let flat_model: Vec<i64> = model.iter().flatten().copied().collect();
    ensure_eq!(flat, flat_model, "iter_array_elements");
    for i in 0..model.len() + 3 {
        ensure_eq!(nv.get(i).map(|a| a.to_vec()), model.get(i).cloned(), "get({})", i);
    }
    for i in [usize::MAX, usize::MAX / 2] {
        ensure!(nv.get(i).is_none(), "get({}) is not None", i);
    }
    ensure_eq!(nv.first().map(|a| a.to_vec()), model.first().cloned(), "first");
    ensure_eq!(nv.last().map(|a| a.to_vec()), model.last().cloned(), "last");
    Ok(())
}

fn gen_array(c: &mut Case) -> Vec<i64> {
    let n = if c.chance(1, 4) { 0 } else { c.int(0, 6) };
    c.vec(n, |c| c.sint(-50, 50))
}

fn history(c: &mut Case) -> Res {
    let num_ops = c.int(1, 40);
    let mut nv = NestedVec::new();
    let mut model: Model = vec![];
    let mut log = vec![];
    let (mut saw_empty, mut saw_append, mut saw_mut, mut saw_clear) = (false, false, false, false);
    for _ in 0..num_ops {
        match c.int(0, 10) {
            0 | 1 => {
                let a = gen_array(c);
                saw_empty |= a.is_empty();
                log.push(format!("push({:?})", a));
                nv.push(&a);
                model.push(a);
            }
            2 | 3 => {
                let a = gen_array(c);
                saw_append = true;
                log.push(format!("begin_array{:?}", a));
                {
                    let mut app = nv.begin_array();
                    ensure_eq!(app.count(), 0, "count of fresh appender");
                    let mut k = 0;
                    for x in &a {
                        app.push_single(*x);
                        k += 1;
                        ensure_eq!(app.count(), k, "count");
                    }
                }
                model.push(a);
            }
            4 => {
                let i = c.int(0, model.len() + 1);
                let v = c.sint(-99, 99);
                log.push(format!("get_mut({})[..] = {}", i, v));
                saw_mut = true;
                match (nv.get_mut(i), model.get_mut(i)) {
                    (Some(a), Some(b)) => {
                        ensure_eq!(&*a, &b[..], "get_mut({})", i);
                        if let (Some(x), Some(y)) = (a.last_mut(), b.last_mut()) {
                            *x = v;
                            *y = v;
                        }
                    }
                    (None, None) => {}
                    (a, b) => fail!("get_mut({}) returned {:?}, expected {:?}", i, a, b),
                }
            }
            5 => {
                let v = c.sint(-99, 99);
                let front = c.bool();
                log.push(format!("{}_mut()[..] = {}", if front { "first" } else { "last" }, v));
                saw_mut = true;
                let (a, b) = if front { (nv.first_mut(), model.first_mut()) } else { (nv.last_mut(), model.last_mut()) };
                match (a, b) {
                    (Some(a), Some(b)) => {
                        ensure_eq!(&*a, &b[..], "first/last_mut");
                        for x in a.iter_mut() {
                            *x += v;
                        }
                        for x in b.iter_mut() {
                            *x += v;
                        }
                    }
                    (None, None) => {}
                    (a, b) => fail!("first/last_mut returned {:?}, expected {:?}", a, b),
                }
            }
            6 => {
                if c.chance(1, 3) {
                    log.push("clear".into());
                    saw_clear |= !model.is_empty();
                    nv.clear();
                    model.clear();
                }
            }
            7 => {
                log.push("roundtrip Vec<Vec>".into());
                let v: Vec<Vec<i64>> = Vec::from(&nv);
                ensure_eq!(&v, &model, "into Vec<Vec>");
                nv = NestedVec::from(v);
            }
            8 => {
                log.push("clone".into());
                let copy = nv.clone();
                ensure!(copy == nv, "clone is not equal");
                compare(&copy, &model)?;
                // modifications of the copy leave the original alone
                let mut copy2 = copy.clone();
                copy2.push(&[1, 2, 3]);
                ensure!(copy2 != nv, "longer copy compares equal");
                nv = copy;
            }
            9 => {
                log.push("serde".into());
                let s = serde_json::to_string(&nv).map_err(|e| e.to_string())?;
                let back: NestedVec<i64> = serde_json::from_str(&s).map_err(|e| e.to_string())?;
                compare(&back, &model)?;
                nv = back;
            }
            _ => {
                // abandoned appender: still commits an (empty) array when dropped
                log.push("begin_array[]".into());
                drop(nv.begin_array());
                saw_empty = true;
                model.push(vec![]);
            }
        }
        compare(&nv, &model).map_err(|e| match e {
            Stop::Fail(m) => Stop::Fail(format!("after {:?}: {}", log, m)),
            o => o,
        })?;
    }
    // Equality is by content for values that were built by pushing
    let mut rebuilt = NestedVec::new();
    for a in &model {
        rebuilt.push(a);
    }
    let pushed: NestedVec<i64> = NestedVec::from(&model);
    ensure!(pushed == rebuilt, "From<&Vec<Vec>> differs from pushing");
    ensure!(nv == rebuilt && rebuilt == nv, "after {:?}: not equal to a container with the same arrays", log);
    // ... and containers whose arrays differ in content or only in where they are cut are not equal
    if !model.is_empty() {
        let i = c.int(0, model.len() - 1);
        let mut other = model.clone();
        match c.int(0, 2) {
            0 => other[i].push(0),
            1 => {
                if i + 1 < other.len() && !other[i + 1].is_empty() {
                    let x = other[i + 1].remove(0);
                    other[i].push(x);
                } else {
                    other.push(vec![]);
                }
            }
            _ => match other[i].last_mut() {
                Some(x) => *x += 1,
                None => {
                    other.remove(i);
                }
            },
        }
        let equal = nv == NestedVec::from(&other);
        ensure_eq!(equal, other == model, "equality of {:?} and {:?}", model, other);
    }
    ensure_eq!(format!("{:?}", nv), format!("{:?}", model), "Debug");
    c.class_if(saw_empty, "empty array");
    c.class_if(saw_append, "appender");
    c.class_if(saw_mut, "mutation");
    c.class_if(saw_clear, "clear of non-empty");
    c.nontrivial_if(model.len() >= 2 && model.iter().any(|a| a.len() > 1) && (saw_empty || saw_clear || saw_mut));
    c.note(|| format!("ops = {}", log.join("; ")));
    Ok(())
}

/// Reference: random access by index is equivalent to the concatenation with prefix sums
fn bulk(c: &mut Case) -> Res {
    let n = c.int(0, 200);
    let model: Model = c.vec(n, gen_array);
    c.note_debug("arrays", &model);
    c.nontrivial_if(n > 20);
    let nv = NestedVec::from(&model);
    compare(&nv, &model)?;
    let mut appended = NestedVec::new();
    for a in &model {
        let mut app = appended.begin_array();
        for x in a {
            app.push_single(*x);
        }
    }
    ensure!(appended == nv, "appending elementwise is not equal to pushing arrays");
    compare(&appended, &model)
}

/// Long arrays, many arrays and histories on them
fn huge(c: &mut Case) -> Res {
    let mut nv = NestedVec::new();
    let mut model: Model = vec![];
    let mut log = vec![];
    for _ in 0..c.int(1, 4) {
        let op = c.int(0, 5);
        match op {
            0 | 1 => {
                // a long array
                let n = c.size(300_000);
                let base = c.int(0, 1000) as i64;
                let a: Vec<i64> = (0..n as i64).map(|i| base + i).collect();
                log.push(format!("array of {} ({})", n, if op == 0 { "push" } else { "appender" }));
                if op == 0 {
                    nv.push(&a);
                } else {
                    let mut app = nv.begin_array();
                    a.iter().for_each(|x| {
                        app.push_single(*x);
                    });
                    ensure_eq!(app.count(), n, "count");
                }
                model.push(a);
                c.class_if(n > 256, "long array");
                c.nontrivial_if(n > 256);
            }
            2 => {
                // many arrays
                let n = c.size(100_000);
                let max = c.int(0, 3);
                let mut d = c.dice();
                log.push(format!("{} arrays of up to {}", n, max));
                for i in 0..n {
                    let k = d.int(0, max);
                    let a: Vec<i64> = (0..k).map(|k| (3 * i + k) as i64).collect();
                    if d.bool() {
                        nv.push(&a);
                    } else {
                        let mut app = nv.begin_array();
                        a.iter().for_each(|x| {
                        app.push_single(*x);
                    });
                    }
                    model.push(a);
                }
                c.class_if(n > 256, "many arrays");
                c.nontrivial_if(n > 256);
            }
            3 => {
                log.push("serde".into());
                let s = serde_json::to_string(&nv).map_err(|e| e.to_string())?;
                nv = serde_json::from_str(&s).map_err(|e| e.to_string())?;
            }
            4 => {
                if model.is_empty() {
                    continue;
                }
                let i = c.int(0, model.len() - 1);
                log.push(format!("get_mut({})", i));
                match nv.get_mut(i) {
                    None => fail!("get_mut({}) of {} arrays", i, model.len()),
                    Some(a) => {
                        ensure!(a == &model[i][..], "get_mut({}) after {:?}", i, log);
                        a.iter_mut().for_each(|x| *x += 1);
                        model[i].iter_mut().for_each(|x| *x += 1);
                    }
                }
            }
            _ => {
                log.push("roundtrip".into());
                let v: Model = Vec::from(&nv);
                ensure!(v == model, "into Vec<Vec> after {:?}", log);
                nv = NestedVec::from(v);
            }
        }
        ensure_eq!(nv.len(), model.len(), "len after {:?}", log);
        ensure_eq!(nv.total_num_elements(), model.iter().map(|a| a.len()).sum::<usize>(), "total_num_elements after {:?}", log);
        ensure!(nv.iter().eq(model.iter().map(|a| &a[..])), "iter after {:?}", log);
        ensure!(nv.iter_array_elements().eq(model.iter().flatten()), "iter_array_elements after {:?}", log);
        for i in 0..model.len() {
            ensure!(nv.get(i) == Some(&model[i][..]), "get({}) after {:?}", i, log);
        }
        ensure!(nv.get(model.len()).is_none(), "get({}) after {:?}", model.len(), log);
        ensure!(nv.first() == model.first().map(|a| &a[..]), "first after {:?}", log);
        ensure!(nv.last() == model.last().map(|a| &a[..]), "last after {:?}", log);
    }
    ensure!(nv == NestedVec::from(&model), "after {:?}: not equal to a container with the same arrays", log);
    c.note(|| log.join("; "));
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C05",
        rule: "history: sequences of up to 40 operations (push, element-wise append, mutable access, clear, clone, conversions, serde), compared against Vec<Vec<i64>> after every operation; non-trivial: ends with at least two arrays, one longer than 1, after an empty array, a clear or a mutation. bulk: up to 200 arrays; non-trivial: more than 20. huge: arrays of up to 300000 elements, up to 100000 arrays; non-trivial: more than 256 of either.",
        assumptions: &["deserialization is only fed output of serialization"],
        clauses: vec![clause("history", 900_000, 9_000_000, history), clause("bulk", 75_000, 750_000, bulk), clause("huge", 10_000, 100_000, huge)],
    })
}
