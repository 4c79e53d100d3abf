//! C35: proptest strategies and test utilities.
use ::proptest::prelude::*;
use ::proptest::strategy::ValueTree;
use ::proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use fenris::element::*;
use fenris::nalgebra::*;
use fenris::proptest as fp;
use fenris::util::proptest as up;
use fenris_geometry::proptest as gp;
use fenris_geometry::{LineSegment2d, Orientation, Triangle2d, Triangle3d};
use pbt::{catch, clause, discard, ensure, ensure_eq, fail, Case, Property, Res};

/// Draws a value and explores its simplifications in the way a test runner does: after a simplification that still
/// fails the test it simplifies further, after one that passes it complicates.
fn explore<S: Strategy>(c: &mut Case, strategy: S, pred: impl Fn(&S::Value) -> Res) -> Res
where
    S::Value: std::fmt::Debug,
{
    let mut seed = [0u8; 32];
    for chunk in seed.chunks_mut(8) {
        chunk.copy_from_slice(&c.below(u64::MAX).to_le_bytes());
    }
    let mut runner = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
    let mut tree = match strategy.new_tree(&mut runner) {
        Ok(t) => t,
        Err(_) => discard!("rejected by the strategy"),
    };
    pred(&tree.current())?;
    let max = if c.thorough { 3000 } else { 1200 };
    let steps = match c.int(0, 3) {
        0 => 0,
        1 => c.int(1, 20),
        2 => c.int(20, 200),
        _ => c.int(200, max),
    };
    c.nontrivial_if(steps > 0);
    let mut policy = c.int(0, 2);
    // a failure that does not depend on the details is simplified to the end
    let constant = c.chance(1, 3);
    for i in 0..steps {
        if !constant && c.chance(1, 60) {
            policy = c.int(0, 2);
        }
        let fails = i == 0 || policy == 0 || (policy == 2 && c.bool());
        if !(if fails { tree.simplify() } else { tree.complicate() }) {
            break;
        }
        let v = tree.current();
        if let Err(e) = pred(&v) {
            c.note(|| format!("after {} steps: {:?}", i + 1, v));
            return Err(e);
        }
    }
    c.note(|| format!("{:?} after up to {} steps", tree.current(), steps));
    Ok(())
}

fn in_range<'a>(xs: impl IntoIterator<Item = &'a f64>, r: f64) -> Res {
    for x in xs {
        ensure!(-r <= *x && *x < r, "coordinate {} is not in [-{}, {})", x, r, r);
    }
    Ok(())
}

/// Twice the signed area and its tolerance
fn area2(a: &Point2<f64>, b: &Point2<f64>, c: &Point2<f64>) -> (f64, f64) {
    let (u, v) = (b - a, c - a);
    let m = [a, b, c].iter().fold(0.0, |m: f64, p| m.max(p.coords.amax()));
    (u.x * v.y - u.y * v.x, 1e-14 * (u.norm() + v.norm()) * m + 1e-13 * u.norm() * v.norm())
}

fn points(c: &mut Case) -> Res {
    match c.int(0, 9) {
        0 => explore(c, gp::vector2(), |v| in_range(v.iter(), 10.0)),
        1 => explore(c, gp::vector3(), |v| in_range(v.iter(), 10.0)),
        2 => explore(c, gp::point2(), |v| in_range(v.iter(), 10.0)),
        3 => explore(c, gp::point3(), |v| in_range(v.iter(), 10.0)),
        4 => explore(c, fp::point2(), |v| in_range(v.iter(), 10.0)),
        5 => explore(c, fp::point3(), |v| in_range(v.iter(), 10.0)),
        6 => explore(c, up::point2_f64_strategy(), |v| in_range(v.iter(), 100.0)),
        7 => explore(c, up::vector2_f64_strategy(), |v| in_range(v.iter(), 100.0)),
        8 => explore(c, gp::half_plane(), |h| {
            in_range(h.point().iter(), 10.0)?;
            ensure!((h.normal().norm() - 1.0).abs() < 1e-12, "normal {:?} is not a unit vector", h.normal());
            Ok(())
        }),
        _ => {
            fn ordered<const D: usize>(min: &Point<f64, D>, max: &Point<f64, D>) -> Res {
                for i in 0..D {
                    ensure!(min[i] <= max[i], "box from {:?} to {:?}", min, max);
                }
                in_range(min.iter().chain(max.iter()), 10.0)
            }
            match c.int(0, 2) {
                0 => explore(c, gp::aabb2(), |b| ordered(b.min(), b.max())),
                1 => explore(c, gp::aabb3(), |b| ordered(b.min(), b.max())),
                _ => explore(c, gp::aabb::<U1>(), |b| ordered(b.min(), b.max())),
            }
        }
    }
}

fn oriented(t: &[Point2<f64>; 3], ccw: bool) -> Res {
    let (a, tol) = area2(&t[0], &t[1], &t[2]);
    let a = if ccw { a } else { -a };
    ensure!(a >= -tol, "triangle {:?} is not oriented {}", t, if ccw { "counterclockwise" } else { "clockwise" });
    Ok(())
}

fn elements(c: &mut Case) -> Res {
    match c.int(0, 9) {
        0 | 1 => {
            let ccw = c.bool();
            let o = if ccw { Orientation::Counterclockwise } else { Orientation::Clockwise };
            let params = gp::Triangle2dParams::default().with_orientation(o);
            explore(c, any_with::<Triangle2d<f64>>(params), |t| {
                in_range(t.0.iter().flat_map(|p| p.iter()), 10.0)?;
                oriented(&t.0, ccw)
            })
        }
        2 => explore(c, any::<Triangle2d<f64>>(), |t| oriented(&t.0, true)),
        3 => explore(c, gp::clockwise_triangle2d_strategy_f64(), |t| {
            in_range(t.0.iter().flat_map(|p| p.iter()), 10.0)?;
            oriented(&t.0, false)
        }),
        4 => explore(c, gp::triangle2d_strategy_f64(), |t| in_range(t.0.iter().flat_map(|p| p.iter()), 10.0)),
        5 => explore(c, any::<Triangle3d<f64>>(), |t| in_range(t.0.iter().flat_map(|p| p.iter()), 10.0)),
        6 => explore(c, any::<Tri3d2Element<f64>>(), |t| {
            in_range(t.vertices().iter().flat_map(|p| p.iter()), 10.0)?;
            oriented(t.vertices(), true)
        }),
        7 => explore(c, any::<Tri3d3Element<f64>>(), |t| in_range(t.vertices().iter().flat_map(|p| p.iter()), 10.0)),
        _ => explore(c, any::<Tet4Element<f64>>(), |t| {
            let v = t.vertices();
            let e: Vec<Vector3<f64>> = (1..4).map(|i| v[i] - v[0]).collect();
            let det = e[0].cross(&e[1]).dot(&e[2]);
            let m = v.iter().fold(0.0, |m: f64, p| m.max(p.coords.amax()));
            let area = (e[0].norm() * e[1].norm()).max(e[1].norm() * e[2].norm()).max(e[2].norm() * e[0].norm());
            ensure!(det >= -1e-12 * area * m, "tetrahedron {:?} is inverted (determinant {})", v, det);
            in_range(v[..3].iter().flat_map(|p| p.iter()), 10.0)
        }),
    }
}

fn convex(q: &[Point2<f64>; 4]) -> Res {
    // All corners turn the same way
    let turns: Vec<(f64, f64)> = (0..4).map(|i| area2(&q[i], &q[(i + 1) % 4], &q[(i + 2) % 4])).collect();
    let left = turns.iter().all(|(a, tol)| *a >= -tol);
    let right = turns.iter().all(|(a, tol)| *a <= *tol);
    ensure!(left || right, "quadrilateral {:?} is not convex", q);
    Ok(())
}

fn quad_area(q: &[Point2<f64>; 4]) -> f64 {
    0.5 * (q[2] - q[0]).perp(&(q[3] - q[1]))
}

fn shapes(c: &mut Case) -> Res {
    match c.int(0, 5) {
        0 => explore(c, gp::convex_quad2d_strategy_f64(), |q| convex(&q.0)),
        1 => explore(c, gp::nondegenerate_convex_quad2d_strategy_f64(), |q| {
            convex(&q.0)?;
            ensure!(quad_area(&q.0).abs() > 0.0, "quadrilateral {:?} has no area", q.0);
            for i in 0..4 {
                ensure!(q.0[i] != q.0[(i + 1) % 4], "corner {} of {:?} coincides with the next", i, q.0);
            }
            // not degenerate: seen from the corner 0, the corner 2 is between its neighbours and behind their diagonal
            let (u, v, w) = (q.0[1] - q.0[0], q.0[3] - q.0[0], q.0[2] - q.0[0]);
            let det = u.perp(&v);
            if u.norm().min(v.norm()) > 1e-2 && det.abs() > 1e-3 * u.norm() * v.norm() {
                let (a, b) = (w.perp(&v) / det, u.perp(&w) / det);
                ensure!(a.min(b).min(a + b - 1.0) > 1e-8, "{:?} is degenerate: corner 2 has the coordinates {:e} and {:e}", q.0, a, b);
            }
            Ok(())
        }),
        2 => explore(c, gp::parallelogram_strategy_f64(), |q| {
            let d = (q.0[1] - q.0[0]) - (q.0[2] - q.0[3]);
            let m = q.0.iter().fold(0.0, |m: f64, p| m.max(p.coords.amax()));
            ensure!(d.amax() <= 1e-14 * m, "{:?} is not a parallelogram", q.0);
            ensure!(quad_area(&q.0).abs() > 0.0, "parallelogram {:?} has no area", q.0);
            Ok(())
        }),
        3 => explore(c, gp::nondegenerate_triangle2d_strategy_f64(), |t| {
            let (a, _) = area2(&t.0[0], &t.0[1], &t.0[2]);
            ensure!(a > 0.0, "triangle {:?} has the signed area {}", t.0, 0.5 * a);
            Ok(())
        }),
        _ => explore(c, gp::nondegenerate_line_segment2d_strategy_f64(), |s| {
            ensure!(s.start() != s.end(), "segment from {:?} to {:?} is degenerate", s.start(), s.end());
            in_range(s.start().iter(), 10.0)
        }),
    }
}

fn meshes(c: &mut Case) -> Res {
    let unit = if c.bool() { 1.0 } else { c.magnitude(-2.0, 2.0) };
    let max = match c.int(0, 3) {
        0 => c.int(0, 5),
        1 => c.int(0, 30),
        2 => c.int(0, 100),
        _ => {
            let k = c.int(1, 9);
            (k * k + c.int(0, 2)).saturating_sub(1)
        }
    };
    c.note(|| format!("unit {}, max_cells {}", unit, max));
    explore(c, fp::rectangular_uniform_mesh_strategy(unit, max), |mesh| {
        let n = mesh.connectivity().len();
        ensure!(n <= max, "{} cells, at most {} are allowed", n, max);
        let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * unit;
        let mut side = 0.0;
        for i in 0..n {
            let p: Vec<_> = mesh.connectivity()[i].0.iter().map(|j| mesh.vertices()[*j]).collect();
            let h = p[1].x - p[0].x;
            if i == 0 {
                side = h;
            }
            ensure!(h > 0.0 && close(h, side), "cell {} has the side {}, cell 0 {}", i, h, side);
            let expected = [[0.0, 0.0], [h, 0.0], [h, h], [0.0, h]];
            for (q, e) in p.iter().zip(expected) {
                ensure!(close(q.x - p[0].x, e[0]) && close(q.y - p[0].y, e[1]), "cell {} is not a square: {:?}", i, p);
            }
        }
        if n > 0 {
            let per_unit = (unit / side).round();
            ensure!(close(side * per_unit, unit), "the side {} does not divide the unit {}", side, unit);
            let ext = |k: usize| {
                let (lo, hi) = mesh.vertices().iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), p| (a.min(p[k]), b.max(p[k])));
                hi - lo
            };
            let units = [ext(0) / unit, ext(1) / unit];
            for u in units {
                ensure!((u - u.round()).abs() < 1e-9, "the mesh covers {:?} units", units);
            }
            ensure_eq!(n, (units[0] * units[1] * per_unit * per_unit).round() as usize, "number of cells for {:?} units", units);
        }
        Ok(())
    })
}

fn matrices(c: &mut Case) -> Res {
    let (r0, c0) = (c.int(0, 5), c.int(0, 5));
    let (r1, c1) = (r0 + c.int(0, 4), c0 + c.int(0, 4));
    let lo = c.sint(-20, 20);
    let hi = lo + c.int(0, 20) as i64;
    c.note(|| format!("shapes {}..={} x {}..={}, elements {}..={}", r0, r1, c0, c1, lo, hi));
    let elements = |m: &DMatrix<i64>| -> Res {
        ensure!(m.iter().all(|x| lo <= *x && *x <= hi), "elements of {:?} are not in {}..={}", m, lo, hi);
        Ok(())
    };
    match c.int(0, 2) {
        0 => explore(c, up::DMatrixStrategy::new().with_shapes(up::square_shape(r0..=r1).boxed()).with_elements(lo..=hi), |m| {
            ensure!(m.nrows() == m.ncols() && r0 <= m.nrows() && m.nrows() <= r1, "{} x {} matrix", m.nrows(), m.ncols());
            elements(m)
        }),
        1 => explore(c, up::DMatrixStrategy::new().with_elements(lo..=hi).with_shapes((r0..=r1, c0..=c1)), |m| {
            ensure!(r0 <= m.nrows() && m.nrows() <= r1 && c0 <= m.ncols() && m.ncols() <= c1, "{} x {} matrix", m.nrows(), m.ncols());
            elements(m)
        }),
        _ => explore(c, up::square_shape(r0..=r1), |(a, b)| {
            ensure!(a == b && r0 <= *a && *a <= r1, "{} x {}", a, b);
            Ok(())
        }),
    }
}

fn utilities(c: &mut Case) -> Res {
    // prefix_sum
    let n = c.int(0, 12);
    let counts = c.vec(n, |c| c.int(0, 9));
    let x0 = c.int(0, 9);
    let got: Vec<usize> = util::prefix_sum(counts.iter().copied(), x0).collect();
    let expected: Vec<usize> = (0..n).map(|i| x0 + counts[..i].iter().sum::<usize>()).collect();
    ensure_eq!(got, expected, "prefix sums of {:?} from {}", counts, x0);
    // flatten_vertically
    let k = c.int(0, 5);
    let cols = c.int(0, 4);
    let odd = if k > 1 && c.chance(1, 4) { Some(c.int(1, k - 1)) } else { None };
    let mut next = 0;
    let parts: Vec<DMatrix<i64>> = (0..k)
        .map(|i| {
            let rows = c.int(0, 4);
            let m = DMatrix::from_fn(rows, if odd == Some(i) { cols + 1 } else { cols }, |_, _| {
                next += 1;
                next
            });
            m
        })
        .collect();
    c.note(|| format!("parts {:?}", parts));
    c.nontrivial_if(k > 1);
    let rows: usize = parts.iter().map(|p| p.nrows()).sum();
    let at = |i: usize, j: usize| {
        let mut i = i;
        for p in &parts {
            if i < p.nrows() {
                return p[(i, j)];
            }
            i -= p.nrows();
        }
        unreachable!()
    };
    let got = catch(|| util::flatten_vertically(&parts));
    match (got, odd, k) {
        (Ok(m), _, 0) => ensure!(m.is_none(), "no matrices are flattened to {:?}", m),
        (Err(_), Some(_), _) => {}
        (Ok(m), Some(_), _) => fail!("matrices with different numbers of columns are flattened to {:?}", m),
        (Err(e), _, _) => fail!("flatten_vertically panics: {:?}", e),
        (Ok(m), _, _) => {
            let m = m.ok_or("no result")?;
            ensure_eq!(m, DMatrix::from_fn(rows, cols, at), "flattened");
        }
    }
    if odd.is_none() {
        let out_rows = if c.chance(1, 4) { c.int(0, rows + 2) } else { rows };
        let mut out = DMatrix::from_element(out_rows, cols, -1);
        let r = catch(|| util::flatten_vertically_into(&mut out, &parts));
        ensure_eq!(r.is_ok(), out_rows == rows, "flattening {} rows into {} succeeds", rows, out_rows);
        if r.is_ok() {
            ensure_eq!(out, DMatrix::from_fn(rows, cols, at), "flattened into");
        }
    }
    Ok(())
}

fn panicking(k: usize) -> usize {
    assert!(k != 0, "zero");
    k
}

fn assertions(c: &mut Case) -> Res {
    // matrices: within the tolerance or not, with differences of either sign at any position
    let (r, k) = (c.int(1, 4), c.int(1, 4));
    let tol = c.grid(4, 4).abs();
    let a = DMatrix::from_fn(r, k, |_, _| c.grid(8, 4));
    let over = c.chance(1, 3);
    let mut b = a.map(|x| x + if c.bool() { 0.0 } else { tol * c.sint(-4, 4) as f64 / 4.0 });
    if over {
        let at = (c.int(0, r - 1), c.int(0, k - 1));
        b[at] = match c.int(0, 3) {
            0 => f64::NAN,
            1 => f64::INFINITY,
            2 => a[at] - tol - 0.25,
            _ => a[at] + tol + 0.25,
        };
    }
    c.note(|| format!("{:?} and {:?}, tolerance {}", a, b, tol));
    c.nontrivial_if(over);
    let r = catch(|| util::assert_approx_matrix_eq!(&a, &b, abstol = tol));
    ensure_eq!(r.is_ok(), !over, "the assertion accepts the matrices");
    // segments
    let p = c.vec(4, |c| c.grid(8, 4));
    let s1 = LineSegment2d::from_end_points(Point2::new(p[0], p[1]), Point2::new(p[2], p[3]));
    let q: Vec<f64> = p.iter().map(|x| x + tol * c.sint(-4, 4) as f64 / 4.0).collect();
    let mut q = if c.bool() { vec![q[2], q[3], q[0], q[1]] } else { q };
    if c.chance(1, 3) {
        let i = c.int(0, 3);
        q[i] += c.grid(8, 4);
    }
    let s2 = LineSegment2d::from_end_points(Point2::new(q[0], q[1]), Point2::new(q[2], q[3]));
    let near = |i: [usize; 4]| (0..4).all(|k| (p[k] - q[i[k]]).abs() <= tol);
    let equal = near([0, 1, 2, 3]) || near([2, 3, 0, 1]);
    let r = catch(|| fenris_geometry::assert_line_segments_approx_equal!(s1, s2, abstol = tol));
    ensure_eq!(r.is_ok(), equal, "the assertion accepts the segments {:?} and {:?} with tolerance {}", p, q, tol);
    let in_test = || -> Result<(), TestCaseError> {
        fenris_geometry::prop_assert_line_segments_approx_equal!(s1, s2, abstol = tol);
        Ok(())
    };
    let r = catch(in_test);
    match r {
        Ok(r) => ensure_eq!(r.is_ok(), equal, "the proptest assertion accepts the segments {:?} and {:?} with tolerance {}", p, q, tol),
        Err(e) => fail!("the proptest assertion panics: {:?}", e),
    }
    // panics
    let z = c.int(0, 1);
    let r = catch(|| util::assert_panics!(panicking(z)));
    ensure_eq!(r.is_ok(), z == 0, "assert_panics accepts a panic: {}", z == 0);
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C35",
        rule: "at least one simplification is explored (strategies); two matrices (utilities); a difference above the tolerance (assertions)",
        assumptions: &["orientation and convexity are decided up to rounding of the corners", "a triangle whose corners are collinear has either orientation"],
        clauses: vec![
            clause("points", 4_000_000, 40_000_000, points),
            clause("elements", 4_000_000, 40_000_000, elements),
            clause("shapes", 3_800_000, 40_000_000, shapes),
            clause("meshes", 1_400_000, 14_000_000, meshes),
            clause("matrices", 3_400_000, 34_000_000, matrices),
            clause("utilities", 3_800_000, 38_000_000, utilities),
            clause("assertions", 400, 4_000, assertions),
        ],
    })
}
