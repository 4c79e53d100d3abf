//! C14: quadrature tables.
use fenris::allocators::BiDimAllocator;
use fenris::assembly::buffers::QuadratureBuffer;
use fenris::assembly::global::{CsrAssembler, CsrParAssembler, VectorAssembler};
use fenris::assembly::local::*;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DMatrix, DefaultAllocator, OPoint, OVector, U1, U2, U3};
use fenris::nalgebra_sparse::CsrMatrix;
use fenris::SmallDim;
use fenris_nested_vec::NestedVec;
use fenris_solid::GravitySource;
use pbt::elems::*;
use pbt::meshes::*;
use pbt::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::fmt::Debug;

/// Points, weights and data
#[derive(Clone, Debug, PartialEq, Default)]
struct Rule<Data> {
    points: Vec<Vec<f64>>,
    weights: Vec<f64>,
    data: Vec<Data>,
}

fn gen_rule<Data>(c: &mut Case, d: usize, max: usize, data: &mut dyn FnMut(&mut Case) -> Data) -> Rule<Data> {
    let n = c.int(0, max);
    Rule { points: c.vec(n, |c| c.vec(d, |c| c.grid(256, 256))), weights: c.vec(n, |c| c.grid(256, 256)), data: (0..n).map(|_| data(c)).collect() }
}

fn nested<T: Clone>(v: Vec<Vec<T>>) -> NestedVec<T> {
    NestedVec::from(&v)
}

fn pts<D: SmallDim, X>(r: &[Rule<X>]) -> Vec<Vec<OPoint<f64, D>>>
where
    DefaultAllocator: BiDimAllocator<f64, D, D>,
{
    r.iter().map(|r| r.points.iter().map(|p| opoint(p)).collect()).collect()
}

fn wts<X>(r: &[Rule<X>]) -> Vec<Vec<f64>> {
    r.iter().map(|r| r.weights.clone()).collect()
}

fn dat<X: Clone>(r: &[Rule<X>]) -> Vec<Vec<X>> {
    r.iter().map(|r| r.data.clone()).collect()
}

/// Queries in random order, directly and through a buffer
fn query<D, Data, Q>(c: &mut Case, label: &str, table: &Q, model: &dyn Fn(usize) -> Rule<Data>, elements: usize, buffer: &mut QuadratureBuffer<f64, D, Data>) -> Res
where
    D: SmallDim,
    Data: Clone + Default + PartialEq + Debug,
    Q: QuadratureTable<f64, D, Data = Data> + ?Sized,
    DefaultAllocator: BiDimAllocator<f64, D, D>,
{
    if elements == 0 {
        return Ok(());
    }
    for _ in 0..elements.min(6) + c.int(0, 3) {
        let e = c.int(0, elements - 1);
        let m = model(e);
        let n = m.weights.len();
        ensure_eq!(table.element_quadrature_size(e), n, "{}: size of the rule of element {}", label, e);
        let got = match c.int(0, 3) {
            0 => {
                let mut p = vec![opoint::<D>(&vec![9.0; D::dim()]); n];
                let mut w = vec![9.0; n];
                table.populate_element_quadrature(e, &mut p, &mut w);
                let mut data = vec![Data::default(); n];
                table.populate_element_data(e, &mut data);
                (p, w, data)
            }
            1 => {
                let mut p = vec![opoint::<D>(&vec![9.0; D::dim()]); n];
                let mut w = vec![9.0; n];
                let mut data = vec![Data::default(); n];
                table.populate_element_quadrature_and_data(e, &mut p, &mut w, &mut data);
                (p, w, data)
            }
            2 => {
                // weights and points only: the data of the buffer is not part of the answer
                buffer.populate_element_weights_and_points_from_table(e, table);
                ensure_eq!(buffer.points().len(), n, "{}: number of points", label);
                (buffer.points().to_vec(), buffer.weights().to_vec(), m.data.clone())
            }
            _ => {
                buffer.populate_element_quadrature_from_table(e, table);
                // visiting the points: all of them in order, up to the first error
                let stop = if n > 0 && c.chance(1, 4) { c.int(0, n - 1) } else { n };
                let (mut vp, mut vw, mut vd) = (vec![], vec![], vec![]);
                let r = buffer.for_each_quadrature_point(|w, p, d| {
                    if vp.len() == stop {
                        return Err(eyre::eyre!("stop"));
                    }
                    vw.push(w);
                    vp.push(p.clone());
                    vd.push(d.clone());
                    Ok(())
                });
                ensure_eq!(r.is_ok(), stop == n, "{}: visiting {} points, error at {}", label, n, stop);
                ensure!(
                    vp[..] == buffer.points()[..stop] && vw[..] == buffer.weights()[..stop] && vd[..] == buffer.data()[..stop],
                    "{}: visited points {:?}, weights {:?}, data {:?} of element {}", label, vp, vw, vd, e
                );
                let (w, p) = buffer.weights_and_points();
                ensure!(w == buffer.weights() && p == buffer.points(), "{}: weights and points differ", label);
                (buffer.points().to_vec(), buffer.weights().to_vec(), buffer.data().to_vec())
            }
        };
        let p: Vec<Vec<f64>> = got.0.iter().map(|p| p.iter().copied().collect()).collect();
        ensure_eq!(Rule { points: p, weights: got.1, data: got.2 }, m, "{}: rule of element {}", label, e);
    }
    Ok(())
}

fn round_trip<T: Serialize + DeserializeOwned + PartialEq>(label: &str, t: &T) -> Result<T, Stop> {
    let text = serde_json::to_string(t).map_err(|e| format!("{}: {}", label, e))?;
    let back: T = serde_json::from_str(&text).map_err(|e| format!("{}: {}", label, e))?;
    ensure!(&back == t, "{}: serialization changes the table: {}", label, text);
    Ok(back)
}

fn tables_of<D, Data>(c: &mut Case, data: &mut dyn FnMut(&mut Case) -> Data) -> Res
where
    D: SmallDim,
    Data: Clone + Default + PartialEq + Debug + Serialize + DeserializeOwned + 'static,
    DefaultAllocator: BiDimAllocator<f64, D, D>,
    OPoint<f64, D>: Serialize + DeserializeOwned,
{
    let d = D::dim();
    let num_rules = c.int(0, 5);
    let rules: Vec<Rule<Data>> = c.vec(num_rules, |c| gen_rule(c, d, 6, data));
    c.note_debug("rules", &rules);
    c.class_if(rules.iter().any(|r| r.weights.is_empty()), "a rule without points");
    let sizes: std::collections::BTreeSet<usize> = rules.iter().map(|r| r.weights.len()).collect();
    c.nontrivial_if(sizes.len() >= 2);
    let mut buffer = QuadratureBuffer::<f64, D, Data>::default();
    let unit = Data::default();
    let mut unit_buffer = QuadratureBuffer::<f64, D, ()>::default();
    let model_unit = |r: &Rule<Data>| Rule { points: r.points.clone(), weights: r.weights.clone(), data: vec![(); r.weights.len()] };

    // one rule per element
    let general = GeneralQuadratureTable::from_points_weights_and_data(nested(pts::<D, _>(&rules)), nested(wts(&rules)), nested(dat(&rules)));
    query(c, "general", &general, &|e| rules[e].clone(), num_rules, &mut buffer)?;
    let general_unit = GeneralQuadratureTable::from_points_and_weights(nested(pts::<D, _>(&rules)), nested(wts(&rules)));
    query(c, "general without data", &general_unit, &|e| model_unit(&rules[e]), num_rules, &mut unit_buffer)?;
    if c.chance(1, 4) {
        round_trip("general", &general)?;
    }
    if c.chance(1, 4) {
        let parts = general.clone().into_parts();
        ensure_eq!(Vec::from(parts.weights), wts(&rules), "weights of into_parts");
        ensure_eq!(Vec::from(parts.data), dat(&rules), "data of into_parts");
        ensure_eq!(Vec::from(parts.points), pts::<D, _>(&rules), "points of into_parts");
    }

    // the same rule for every element
    let one = gen_rule(c, d, 6, data);
    let p: Vec<OPoint<f64, D>> = one.points.iter().map(|p| opoint(p)).collect();
    let uniform = match c.int(0, 2) {
        0 => UniformQuadratureTable::from_points_weights_and_data(p.clone(), one.weights.clone(), one.data.clone()),
        _ => {
            let same = data(c);
            let t = if c.bool() {
                UniformQuadratureTable::from_quadrature_and_uniform_data((one.weights.clone(), p.clone()), same.clone())
            } else {
                UniformQuadratureTable::from_points_weights_and_data(p.clone(), one.weights.clone(), one.data.clone()).with_uniform_data(same.clone())
            };
            let m = Rule { data: vec![same; one.weights.len()], ..one.clone() };
            query(c, "uniform data", &t, &|_| m.clone(), 100, &mut buffer)?;
            UniformQuadratureTable::from_points_weights_and_data(p.clone(), one.weights.clone(), one.data.clone())
        }
    };
    query(c, "uniform", &uniform, &|_| one.clone(), 100, &mut buffer)?;
    let uniform_unit = if c.bool() {
        UniformQuadratureTable::from_points_and_weights(p.clone(), one.weights.clone())
    } else {
        UniformQuadratureTable::from_quadrature((one.weights.clone(), p.clone()))
    };
    query(c, "uniform without data", &uniform_unit, &|_| model_unit(&one), 100, &mut unit_buffer)?;
    if c.chance(1, 4) {
        round_trip("uniform", &uniform)?;
    }

    // shared rules
    let elements = if num_rules == 0 { 0 } else { c.int(0, 10) };
    let map = c.vec(elements, |c| c.int(0, num_rules - 1));
    c.note_debug("map", &map);
    let compact = CompactQuadratureTable::from_quadrature_rules_and_map(nested(pts::<D, _>(&rules)), nested(wts(&rules)), nested(dat(&rules)), map.clone());
    query(c, "compact", &compact, &|e| rules[map[e]].clone(), elements, &mut buffer)?;
    let compact_unit = CompactQuadratureTable::from_points_weights_and_map(nested(pts::<D, _>(&rules)), nested(wts(&rules)), map.clone());
    query(c, "compact without data", &compact_unit, &|e| model_unit(&rules[map[e]]), elements, &mut unit_buffer)?;
    if c.chance(1, 4) {
        round_trip("compact", &compact)?;
    }
    let _ = unit;
    // references to the tables answer the same, in any interleaving with one buffer
    let general_of_map: Vec<Rule<Data>> = map.iter().map(|r| rules[*r].clone()).collect();
    let expanded = GeneralQuadratureTable::from_points_weights_and_data(nested(pts::<D, _>(&general_of_map)), nested(wts(&general_of_map)), nested(dat(&general_of_map)));
    for _ in 0..2 {
        query(c, "expanded", &expanded, &|e| rules[map[e]].clone(), elements, &mut buffer)?;
        query(c, "uniform", &uniform, &|_| one.clone(), 3, &mut buffer)?;
        query(c, "compact", &compact, &|e| rules[map[e]].clone(), elements, &mut buffer)?;
    }
    Ok(())
}

fn tables(c: &mut Case) -> Res {
    macro_rules! go {
        ($D:ty) => {
            match c.int(0, 2) {
                0 => tables_of::<$D, f64>(c, &mut |c| c.grid(500, 8)),
                1 => tables_of::<$D, String>(c, &mut |c| format!("{}", c.int(0, 99))),
                _ => tables_of::<$D, (usize, Vec<u8>)>(c, &mut |c| (c.int(0, 9), c.vec(2, |c| c.int(0, 9) as u8))),
            }
        };
    }
    match c.int(1, 3) {
        1 => go!(U1),
        2 => go!(U2),
        _ => go!(U3),
    }
}

/// Lengths that do not match, rules that do not exist
fn rejection(c: &mut Case) -> Res {
    let mut k = 0.0;
    let num_rules = c.int(1, 4);
    let rules: Vec<Rule<f64>> = c.vec(num_rules, |c| {
        gen_rule(c, 2, 4, &mut |_| {
            k += 1.0;
            k
        })
    });
    let (p, w, d) = (pts::<U2, _>(&rules), wts(&rules), dat(&rules));
    let elements = c.int(0, 5);
    let map = c.vec(elements, |c| c.int(0, num_rules - 1));
    // what is wrong
    let (mut p2, mut w2, mut d2, mut map2) = (p.clone(), w.clone(), d.clone(), map.clone());
    let r = c.int(0, num_rules - 1);
    let defect = c.int(0, 10);
    let extra = opoint::<U2>(&[0.5, 0.5]);
    match defect {
        0 => p2[r].push(extra),
        1 => w2[r].push(1.0),
        2 => d2[r].push(1.0),
        3 => p2.push(vec![]),
        4 => w2.push(vec![]),
        5 => d2.push(vec![]),
        6 => {
            // lengths that only match in total
            if p2[r].is_empty() {
                discard!("nothing to move");
            }
            let x = p2[r].pop().unwrap();
            p2.push(vec![x]);
            let s = (r + 1) % num_rules;
            let _ = s;
            w2.push(vec![]);
            d2.push(vec![]);
        }
        7 => {
            let at = c.int(0, map2.len());
            let off = c.int(0, 3);
            map2.insert(at, num_rules + off);
        }
        _ => {
            // an entry of one rule moved to another: the totals still agree
            let s = c.int(0, num_rules - 1);
            if s == r || rules[s].weights.is_empty() {
                discard!("nothing to move");
            }
            match defect {
                8 => {
                    let x = p2[s].pop().unwrap();
                    p2[r].push(x);
                }
                9 => {
                    let x = w2[s].pop().unwrap();
                    w2[r].push(x);
                }
                _ => {
                    let x = d2[s].pop().unwrap();
                    d2[r].push(x);
                }
            }
        }
    }
    c.note(|| format!("points {:?} weights {:?} data {:?} map {:?}", p2, w2, d2, map2));
    c.nontrivial();
    let rejected = |f: &dyn Fn()| catch(|| f()).is_err();
    let g = rejected(&|| {
        GeneralQuadratureTable::from_points_weights_and_data(nested(p2.clone()), nested(w2.clone()), nested(d2.clone()));
    });
    ensure_eq!(g, defect != 7, "inconsistent general table rejected");
    let g = rejected(&|| {
        CompactQuadratureTable::from_quadrature_rules_and_map(nested(p2.clone()), nested(w2.clone()), nested(d2.clone()), map2.clone());
    });
    ensure!(g, "inconsistent compact table accepted");
    let g = rejected(&|| {
        GeneralQuadratureTable::from_points_and_weights(nested(p2.clone()), nested(w2.clone()));
    });
    ensure_eq!(g, !matches!(defect, 2 | 5 | 7 | 10), "inconsistent general table without data rejected");
    let g = rejected(&|| {
        CompactQuadratureTable::from_points_weights_and_map(nested(p2.clone()), nested(w2.clone()), map2.clone());
    });
    ensure_eq!(g, !matches!(defect, 2 | 5 | 10), "inconsistent compact table without data rejected");
    if defect < 3 || defect > 7 {
        let g = rejected(&|| {
            UniformQuadratureTable::from_points_weights_and_data(p2[r].clone(), w2[r].clone(), d2[r].clone());
        });
        ensure!(g, "inconsistent uniform table accepted");
        if !matches!(defect, 2 | 10) {
            let g = rejected(&|| {
                UniformQuadratureTable::from_points_and_weights(p2[r].clone(), w2[r].clone());
            });
            ensure!(g, "inconsistent uniform table without data accepted");
        }
    }
    // and the consistent input is accepted
    let ok = !rejected(&|| {
        GeneralQuadratureTable::from_points_weights_and_data(nested(p.clone()), nested(w.clone()), nested(d.clone()));
        CompactQuadratureTable::from_quadrature_rules_and_map(nested(p.clone()), nested(w.clone()), nested(d.clone()), map.clone());
    });
    ensure!(ok, "consistent table rejected");
    // arrays into which the rule of the element does not fit
    let general = GeneralQuadratureTable::from_points_weights_and_data(nested(p.clone()), nested(w.clone()), nested(d.clone()));
    let identity: Vec<usize> = (0..num_rules).collect();
    let compact = CompactQuadratureTable::from_quadrature_rules_and_map(nested(p.clone()), nested(w.clone()), nested(d.clone()), identity);
    let uniform = UniformQuadratureTable::from_points_weights_and_data(p[r].clone(), w[r].clone(), d[r].clone());
    let n = w[r].len();
    let other = if n > 0 && c.bool() { n - c.int(1, n) } else { n + c.int(1, 3) };
    let which = c.int(0, 2);
    let size = |k: usize| if k == which { other } else { n };
    for (label, table) in [("general", &general as &dyn QuadratureTable<f64, U2, Data = f64>), ("compact", &compact), ("uniform", &uniform)] {
        let (mut pb, mut wb, mut db) = (vec![opoint::<U2>(&[9.0, 9.0]); size(0)], vec![9.0; size(1)], vec![9.0; size(2)]);
        let g = catch(|| table.populate_element_quadrature_and_data(r, &mut pb, &mut wb, &mut db)).is_err();
        ensure!(g, "{}: rule of {} points is written to arrays of {}, {}, {}", label, n, size(0), size(1), size(2));
        let g = catch(|| table.populate_element_quadrature(r, &mut pb, &mut wb)).is_err();
        ensure_eq!(g, which < 2, "{}: rule of {} points is not written to arrays of {}, {}", label, n, size(0), size(1));
        let g = catch(|| table.populate_element_data(r, &mut db)).is_err();
        ensure_eq!(g, which == 2, "{}: data of {} points is not written to an array of {}", label, n, size(2));
        ensure!(label == "uniform" || catch(|| table.element_quadrature_size(num_rules)).is_err(), "{}: there is no element {}", label, num_rules);
    }
    Ok(())
}

fn same_csr(label: &str, a: &CsrMatrix<f64>, b: &CsrMatrix<f64>) -> Res {
    ensure!(a.pattern() == b.pattern(), "{}: patterns differ", label);
    let size = a.values().iter().fold(0.0, |m: f64, x| m.max(x.abs()));
    ensure!(a.values().iter().zip(b.values()).all(|(x, y)| (x - y).abs() <= 1e-12 * size), "{}: {:?} and {:?}", label, a.values(), b.values());
    Ok(())
}

/// Equivalent tables give the same global quantities
fn replacement(c: &mut Case) -> Res {
    let kind = *c.pick(&[Kind::Tri3, Kind::Quad4, Kind::Tet4, Kind::Hex8, Kind::Tri6, Kind::Quad9]);
    let g = gen_mesh(c, kind, &MeshOpts { max_cells: if kind.rdim() == 3 { 4 } else { 8 }, ..Default::default() });
    let n = g.cells.len();
    let d = kind.rdim();
    let num_rules = c.int(1, 3);
    let rules: Vec<Rule<Density<f64>>> = c.vec(num_rules, |c| {
        let k = c.int(1, 4);
        Rule { points: c.vec(k, |c| kind.ref_point(c)), weights: c.vec(k, |c| c.f64(0.1, 1.0)), data: c.vec(k, |c| Density(c.f64(0.1, 2.0))) }
    });
    let map = c.vec(n, |c| c.int(0, num_rules - 1));
    c.note(|| format!("{:?}, {} cells, map {:?}", kind, n, map));
    c.nontrivial_if(n >= 2 && num_rules >= 2 && map.iter().any(|r| *r != map[0]));
    let grav = c.vec(d, |c| c.f64(-1.0, 1.0));
    for_volume_kind!(kind, C => {
        let mesh = g.to_mesh::<C>();
        type D<C> = <C as fenris::element::ElementConnectivity<f64>>::GeometryDim;
        let src = GravitySource::from_acceleration(OVector::<f64, D<C>>::from_column_slice(&grav));
        let per_cell: Vec<Rule<Density<f64>>> = map.iter().map(|r| rules[*r].clone()).collect();
        let general = GeneralQuadratureTable::from_points_weights_and_data(nested(pts::<D<C>, _>(&per_cell)), nested(wts(&per_cell)), nested(dat(&per_cell)));
        let compact = CompactQuadratureTable::from_quadrature_rules_and_map(nested(pts::<D<C>, _>(&rules)), nested(wts(&rules)), nested(dat(&rules)), map.clone());
        fn all<D, S, Q>(space: &S, table: &Q, src: &GravitySource<f64, D>) -> Result<(CsrMatrix<f64>, CsrMatrix<f64>, Vec<f64>), Stop>
        where
            D: SmallDim,
            S: fenris::space::VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D> + Sync,
            Q: QuadratureTable<f64, D, Data = Density<f64>> + Sync,
            DefaultAllocator: BiDimAllocator<f64, D, D> + fenris::allocators::TriDimAllocator<f64, D, D, D>,
        {
            let asm = ElementMassAssembler::with_solution_dim(2).with_space(space).with_quadrature_table(table);
            let m = CsrAssembler::default().assemble(&asm).map_err(|e| e.to_string())?;
            let colors = fenris::assembly::global::color_nodes(space);
            let mut p = m.clone();
            CsrParAssembler::default().assemble_into_csr(&mut p, &colors, &asm).map_err(|e| e.to_string())?;
            let f = VectorAssembler::default()
                .assemble_vector(&ElementSourceAssemblerBuilder::new().with_finite_element_space(space).with_source(src).with_quadrature_table(table).build())
                .map_err(|e| e.to_string())?;
            Ok((m, p, f.as_slice().to_vec()))
        }
        let a = all(&mesh, &general, &src)?;
        let b = all(&mesh, &compact, &src)?;
        same_csr("mass matrix, general and compact table", &a.0, &b.0)?;
        // (parallel assembly accumulates into the matrix it is given)
        same_csr("parallel mass matrix, general and compact table", &a.1, &b.1)?;
        let scale = a.2.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
        ensure!(a.2.iter().zip(&b.2).all(|(x, y)| (x - y).abs() <= 1e-12 * scale), "source vector, general and compact table: {:?} {:?}", a.2, b.2);
        if num_rules == 1 {
            c.class("uniform");
            let r = &rules[0];
            let uniform = UniformQuadratureTable::from_points_weights_and_data(r.points.iter().map(|p| opoint::<D<C>>(p)).collect(), r.weights.clone(), r.data.clone());
            let u = all(&mesh, &uniform, &src)?;
            same_csr("mass matrix, general and uniform table", &a.0, &u.0)?;
            ensure!(a.2.iter().zip(&u.2).all(|(x, y)| (x - y).abs() <= 1e-12 * scale), "source vector, general and uniform table: {:?} {:?}", a.2, u.2);
        }
    });
    let _ = DMatrix::<f64>::zeros(0, 0);
    Ok(())
}

/// Hundreds of rules, rules with hundreds of points, thousands of elements
fn huge(c: &mut Case) -> Res {
    let num_rules = c.size(600).max(1);
    let max_points = if num_rules > 20 { 4 } else { c.size(600).max(1) };
    let elements = c.size(5000).max(1);
    c.note(|| format!("{} rules with up to {} points, {} elements", num_rules, max_points, elements));
    c.class_if(num_rules > 256, "> 256 rules");
    c.class_if(max_points > 256, "rule with > 256 points");
    c.class_if(elements > 256, "> 256 elements");
    c.nontrivial_if(num_rules.max(max_points) > 64);
    let mut d = c.dice();
    let rules: Vec<Rule<f64>> = (0..num_rules)
        .map(|r| {
            let n = if r == 0 { max_points } else { d.int(0, max_points) };
            Rule {
                points: (0..n).map(|_| (0..2).map(|_| d.f64(-1.0, 1.0)).collect()).collect(),
                weights: (0..n).map(|_| d.f64(-1.0, 1.0)).collect(),
                data: (0..n).map(|_| d.f64(-1.0, 1.0)).collect(),
            }
        })
        .collect();
    let map: Vec<usize> = (0..elements).map(|_| d.int(0, num_rules - 1)).collect();
    let (p, w, dt) = (nested(pts::<U2, _>(&rules)), nested(wts(&rules)), nested(dat(&rules)));
    let general = GeneralQuadratureTable::from_points_weights_and_data(p.clone(), w.clone(), dt.clone());
    let compact = CompactQuadratureTable::from_quadrature_rules_and_map(p, w, dt, map.clone());
    let one = &rules[0];
    let uniform = UniformQuadratureTable::from_points_weights_and_data(one.points.iter().map(|p| opoint::<U2>(p)).collect(), one.weights.clone(), one.data.clone());
    let mut buffer = QuadratureBuffer::<f64, U2, f64>::default();
    let unit = |e: Stop| match e {
        Stop::Fail(m) => Stop::Fail(m.chars().take(400).collect()),
        o => o,
    };
    for _ in 0..2 {
        query(c, "general", &general, &|e| rules[e].clone(), num_rules, &mut buffer).map_err(unit)?;
        query(c, "compact", &compact, &|e| rules[map[e]].clone(), elements, &mut buffer).map_err(unit)?;
        query(c, "uniform", &uniform, &|_| rules[0].clone(), elements, &mut buffer).map_err(unit)?;
    }
    // every element
    for e in 0..elements {
        let m = &rules[map[e]];
        ensure_eq!(compact.element_quadrature_size(e), m.weights.len(), "size of the rule of element {}", e);
        buffer.populate_element_quadrature_from_table(e, &compact);
        ensure!(buffer.weights() == &m.weights[..] && buffer.data() == &m.data[..], "rule of element {}", e);
        ensure!(buffer.points().iter().zip(&m.points).all(|(a, b)| a.coords.as_slice() == &b[..]), "points of element {}", e);
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C14",
        rule: "rules of at least two sizes (tables); always (rejection); two cells with different rules (replacement); more than 64 rules or points of a rule (huge)",
        assumptions: &[],
        clauses: vec![clause("tables", 600_000, 6_000_000, tables), clause("rejection", 450_000, 4_500_000, rejection), clause("replacement", 90_000, 900_000, replacement), clause("huge", 30_000, 300_000, huge)],
    })
}
