//! C15: quadrature rules.
use fenris::nalgebra::{OPoint, Point2, U1, U2, U3};
use fenris::quadrature as fq;
use fenris::quadrature::{NoData, Quadrature, QuadratureParts};
use fenris_quadrature as q;
use pbt::elems::*;
use pbt::quad::*;
use pbt::*;

/// (strength, points) of the rules the library ships
const TABLES: [(Shape, &[(usize, usize)]); 6] = [
    (
        Shape::Tri,
        &[(1, 1), (2, 3), (4, 6), (5, 7), (6, 12), (7, 15), (8, 16), (9, 19), (10, 25), (11, 28), (12, 33), (13, 37), (14, 42), (15, 49), (16, 55), (17, 60), (18, 67), (19, 73), (20, 79)],
    ),
    (Shape::Quad, &[(1, 1), (3, 4), (5, 8), (7, 12), (9, 20), (11, 28), (13, 37), (15, 48), (17, 60), (19, 72), (21, 85)]),
    (Shape::Tet, &[(1, 1), (2, 4), (3, 8), (5, 14), (6, 24), (7, 35), (8, 46), (9, 59), (10, 81)]),
    (Shape::Hex, &[(1, 1), (3, 6), (5, 14), (7, 34), (9, 58), (11, 90)]),
    (Shape::Prism, &[(1, 1), (2, 5), (3, 8), (4, 11), (5, 16), (6, 28), (7, 35), (8, 46), (9, 60), (10, 85)]),
    (Shape::Pyramid, &[(1, 1), (2, 5), (3, 6), (4, 10), (5, 15), (6, 24), (7, 31), (8, 47), (9, 62), (10, 83)]),
];

type Rule = Vec<(Vec<f64>, f64)>;

fn plain<const D: usize>(r: q::Rule<D>) -> Rule {
    assert_eq!(r.0.len(), r.1.len());
    r.1.iter().zip(r.0).map(|(p, w)| (p.to_vec(), w)).collect()
}

fn from_pair<D: fenris::nalgebra::DimName, T: fenris::Real + Into<f64>>(r: fq::QuadraturePair<T, D>) -> Rule
where
    fenris::nalgebra::DefaultAllocator: fenris::nalgebra::allocator::Allocator<T, D>,
{
    assert_eq!(r.0.len(), r.1.len());
    r.1.iter().zip(&r.0).map(|(p, w)| (p.iter().map(|x| (*x).into()).collect(), (*w).into())).collect()
}

fn polyquad(shape: Shape, s: usize) -> Result<Rule, q::Error> {
    Ok(match shape {
        Shape::Tri => plain(q::polyquad::triangle(s)?),
        Shape::Quad => plain(q::polyquad::quadrilateral(s)?),
        Shape::Tet => plain(q::polyquad::tetrahedron(s)?),
        Shape::Hex => plain(q::polyquad::hexahedron(s)?),
        Shape::Prism => plain(q::polyquad::prism(s)?),
        Shape::Pyramid => plain(q::polyquad::pyramid(s)?),
        Shape::Seg => unreachable!(),
    })
}

/// The same through the main library
fn total_order<T: fenris::Real + Into<f64>>(shape: Shape, s: usize) -> Result<Rule, q::Error> {
    use fq::total_order as t;
    Ok(match shape {
        Shape::Tri => from_pair(t::triangle::<T>(s)?),
        Shape::Quad => from_pair(t::quadrilateral::<T>(s)?),
        Shape::Tet => from_pair(t::tetrahedron::<T>(s)?),
        Shape::Hex => from_pair(t::hexahedron::<T>(s)?),
        Shape::Prism => from_pair(t::prism::<T>(s)?),
        Shape::Pyramid => from_pair(t::pyramid::<T>(s)?),
        Shape::Seg => unreachable!(),
    })
}

fn apply(r: &Rule, f: impl Fn(&[f64]) -> f64) -> f64 {
    r.iter().map(|(p, w)| w * f(p)).sum()
}

fn sanity(label: &str, shape: Shape, r: &Rule) -> Res {
    for (p, w) in r {
        ensure!(p.len() == shape.dim(), "{}: point {:?}", label, p);
        ensure!(*w > 0.0, "{}: weight {}", label, w);
        ensure!(shape.contains(p, 1e-13), "{}: point {:?} outside of the domain", label, p);
    }
    let sum: f64 = r.iter().map(|x| x.1).sum();
    ensure!((sum - shape.measure()).abs() <= 1e-11, "{}: weights sum to {}, the measure is {}", label, sum, shape.measure());
    Ok(())
}

/// `total`: bound on the total degree; `each`: bound on the degree in every variable
fn exactness(c: &mut Case, label: &str, shape: Shape, r: &Rule, total: usize, each: usize) -> Res {
    let d = shape.dim();
    let big = total.min(each * d);
    c.nontrivial_if(big >= 2);
    // powers of a linear form, by closed form; only for total degree and moderate powers
    {
        let k = c.int(0, total.min(each).min(40));
        let mut a = c.vec(d, |c| c.f64(-1.0, 1.0));
        let norm: f64 = a.iter().map(|x| x.abs()).sum::<f64>().max(1e-3);
        let b = c.f64(-1.0, 1.0);
        let s = norm + b.abs();
        a.iter_mut().for_each(|x| *x /= s);
        let b = b / s;
        let exact = shape.integrate_power(&a, b, k);
        let got = apply(r, |x| (x.iter().zip(&a).map(|(p, q)| p * q).sum::<f64>() + b).powi(k as i32));
        ensure!((got - exact).abs() <= 1e-11 * shape.measure(), "{}: integral of ({:?} . x + {})^{} is {}, not {}", label, a, b, k, got, exact);
    }
    // product of Legendre polynomials
    let mut deg = vec![0; d];
    let mut left = total;
    let order = c.permutation(d);
    for (i, k) in order.iter().enumerate() {
        let most = each.min(left);
        deg[*k] = if i + 1 == d && c.bool() { most } else { c.int(0, most) };
        left -= deg[*k];
    }
    let f = |x: &[f64]| x.iter().zip(&deg).map(|(x, n)| legendre_value(*n, *x)).product::<f64>();
    let exact = match shape {
        Shape::Seg | Shape::Quad | Shape::Hex => {
            if deg.iter().all(|n| *n == 0) {
                shape.measure()
            } else {
                0.0
            }
        }
        _ => shape.integrate(deg.iter().sum(), f),
    };
    let got = apply(r, f);
    ensure!((got - exact).abs() <= 1e-11 * shape.measure(), "{}: integral of the product of Legendre polynomials of degrees {:?} is {}, not {}", label, deg, got, exact);
    Ok(())
}

fn strength_rules(c: &mut Case) -> Res {
    let (shape, table) = c.pick(&TABLES).clone();
    let max = table.last().unwrap().0;
    let s = match c.int(0, 5) {
        0 => max,
        1 => max + 1 + c.int(0, 5),
        _ => c.int(0, max),
    };
    c.note(|| format!("{:?} rule of strength {}", shape, s));
    let label = format!("{:?} rule of strength {}", shape, s);
    match polyquad(shape, s) {
        Err(e) => {
            ensure!(s > max, "{}: {}", label, e);
            c.class("not available");
            ensure!(total_order::<f64>(shape, s).is_err(), "{}: available in fenris::quadrature only", label);
            c.nontrivial();
        }
        Ok(r) => {
            // a stronger rule than those known to the harness is fine, as long as it is exact
            if let Some(best) = table.iter().find(|t| t.0 >= s) {
                ensure!(r.len() <= best.1, "{}: {} points, although {} are enough", label, r.len(), best.1);
            }
            sanity(&label, shape, &r)?;
            exactness(c, &label, shape, &r, s, s)?;
            if s > 0 {
                let weaker = polyquad(shape, c.int(0, s)).map_err(|e| format!("{}: a weaker one is not available: {}", label, e))?;
                ensure!(weaker.len() <= r.len(), "{}: {} points, a weaker one has {}", label, r.len(), weaker.len());
            }
            ensure_eq!(total_order::<f64>(shape, s).ok(), Some(r.clone()), "{} in fenris::quadrature", label);
            let single = total_order::<f32>(shape, s).map_err(|e| format!("{} in single precision: {}", label, e))?;
            for ((p, w), (p1, w1)) in r.iter().zip(&single) {
                ensure!((w - w1).abs() <= 1e-6 && dist(p, p1) <= 1e-6, "{} in single precision: {:?} {} instead of {:?} {}", label, p1, w1, p, w);
            }
        }
    }
    Ok(())
}

fn gauss_rules(c: &mut Case) -> Res {
    let dim = c.int(1, 3);
    let n = match dim {
        1 => {
            if c.chance(1, 10) {
                c.int(1, if c.thorough { 2000 } else { 400 })
            } else {
                c.int(1, 64)
            }
        }
        2 => c.int(1, 24),
        _ => c.int(1, 10),
    };
    c.note(|| format!("Gauss rule with {} points per dimension in {} dimensions", n, dim));
    let label = format!("{}-dimensional Gauss rule with {} points", dim, n);
    let (shape, r, lib) = match dim {
        1 => (Shape::Seg, plain(q::univariate::gauss(n)), from_pair(fq::univariate::gauss::<f64>(n))),
        2 => (Shape::Quad, plain(q::tensor::quadrilateral_gauss(n)), from_pair(fq::tensor::quadrilateral_gauss::<f64>(n))),
        _ => (Shape::Hex, plain(q::tensor::hexahedron_gauss(n)), from_pair(fq::tensor::hexahedron_gauss::<f64>(n))),
    };
    ensure_eq!(r.len(), n.pow(dim as u32), "{}: number of points", label);
    ensure_eq!(lib, r, "{} in fenris::quadrature", label);
    sanity(&label, shape, &r)?;
    // interior and distinct
    let coords: Vec<f64> = {
        let mut v: Vec<f64> = r.iter().map(|x| x.0[0]).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v
    };
    ensure!(coords[0] > -1.0 && *coords.last().unwrap() < 1.0, "{}: points on the boundary", label);
    for _ in 0..3 {
        exactness(c, &label, shape, &r, (2 * n - 1) * dim, 2 * n - 1)?;
    }
    Ok(())
}

fn lobatto_rules(c: &mut Case) -> Res {
    let n = match c.int(0, 3) {
        0 => *c.pick(&[64, 128, 256, 512]),
        1 => c.int(0, 600),
        _ => c.int(0, 40),
    };
    let documented = (2..=32).contains(&n) || [64, 128, 256, 512].contains(&n);
    let label = format!("Gauss-Lobatto rule with {} points", n);
    c.note(|| label.clone());
    let lib = fq::univariate::try_gauss_lobatto::<f64>(n);
    let Some(r) = q::univariate::try_gauss_lobatto(n) else {
        ensure!(!documented, "{} is documented but not available", label);
        ensure!(lib.is_none(), "{}: available in fenris::quadrature only", label);
        return Ok(());
    };
    c.class("available");
    ensure!(n >= 2, "{} is available", label);
    let r = plain(r);
    ensure_eq!(lib.map(from_pair), Some(r.clone()), "{} in fenris::quadrature", label);
    ensure_eq!(r.len(), n, "{}: number of points", label);
    let mut x: Vec<f64> = r.iter().map(|x| x.0[0]).collect();
    x.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ensure!(x[0] == -1.0 && x[n - 1] == 1.0, "{}: the end points are {} and {}", label, x[0], x[n - 1]);
    ensure!(x.windows(2).all(|w| w[0] < w[1]), "{}: points are not distinct", label);
    sanity(&label, Shape::Seg, &r)?;
    for _ in 0..3 {
        exactness(c, &label, Shape::Seg, &r, 2 * n - 3, 2 * n - 3)?;
    }
    Ok(())
}

/// Polynomial of total degree at most `deg` that belongs to a cell
fn cell_poly(salt: u64, cell: &[usize], deg: usize, d: usize) -> Poly {
    let mut h = salt.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(1);
    let mut next = move || {
        h ^= h << 13;
        h ^= h >> 7;
        h ^= h << 17;
        h
    };
    let mut skip = 1;
    for x in cell {
        skip = skip * 31 + x + 1;
    }
    for _ in 0..skip % 97 {
        next();
    }
    Poly { terms: total_degree(d, deg as u32).into_iter().map(|m| ((next() % 9) as f64 - 4.0, m)).collect() }
}

fn subdivide_1d(c: &mut Case) -> Res {
    let pieces = c.int(1, 12);
    subdivided_segment(c, pieces)
}

/// Many pieces
fn huge(c: &mut Case) -> Res {
    if c.bool() {
        let pieces = c.size(3000).max(1);
        c.class_if(pieces > 1000, "more than 1000 pieces");
        subdivided_segment(c, pieces)
    } else {
        let n = c.size(130).max(1);
        c.class_if(n * n > 1000, "more than 1000 triangles");
        subdivided_triangle(c, n)
    }
}

fn subdivided_segment(c: &mut Case, pieces: usize) -> Res {
    let n = c.int(1, 6);
    let lobatto = n >= 2 && c.chance(1, 3);
    let base = if lobatto { fq::univariate::try_gauss_lobatto::<f64>(n).ok_or("no rule".to_string())? } else { fq::univariate::gauss::<f64>(n) };
    let strength = if lobatto { 2 * n - 3 } else { 2 * n - 1 };
    c.note(|| format!("{} pieces of a rule with {} points of strength {}", pieces, n, strength));
    let sub = from_pair(if c.bool() { fq::subdivide::subdivide_univariate(&base, pieces) } else { fq::subdivide::subdivide_univariate(base.clone(), pieces) });
    let label = format!("segment rule of {} points, {} pieces", n, pieces);
    ensure_eq!(sub.len(), n * pieces, "{}: number of points", label);
    sanity(&label, Shape::Seg, &sub)?;
    exactness(c, &label, Shape::Seg, &sub, strength, strength)?;
    c.nontrivial_if(pieces > 1);
    // exact for functions that are polynomials on every piece only
    if !lobatto {
        let deg = c.int(0, strength.min(7));
        let salt = c.below(1000);
        let h = 2.0 / pieces as f64;
        let polys: Vec<Poly> = (0..pieces).map(|i| cell_poly(salt, &[i], deg, 1)).collect();
        let got = apply(&sub, |x| polys[(((x[0] + 1.0) / h) as usize).min(pieces - 1)].eval(x));
        let exact: f64 = (0..pieces)
            .map(|i| {
                let mid = -1.0 + (i as f64 + 0.5) * h;
                Shape::Seg.integrate(deg, |x| polys[i].eval(&[mid + x[0] * h / 2.0])) * h / 2.0
            })
            .sum();
        let tol = 1e-11 * polys.iter().map(|p| p.size(1.0)).fold(1.0, f64::max);
        ensure!((got - exact).abs() <= tol, "{}: integral of a piecewise polynomial of degree {} is {}, not {}", label, deg, got, exact);
    }
    Ok(())
}

fn subdivide_2d(c: &mut Case) -> Res {
    let n = c.int(1, 7);
    subdivided_triangle(c, n)
}

fn subdivided_triangle(c: &mut Case, n: usize) -> Res {
    let s = c.int(1, 12);
    let base = fq::total_order::triangle::<f64>(s).map_err(|e| e.to_string())?;
    c.note(|| format!("triangle rule of strength {}, {} subdivisions", s, n));
    let size = base.0.len();
    let sub = from_pair(if c.bool() { fq::subdivide::subdivide_triangle(&base, n) } else { fq::subdivide::subdivide_triangle(base.clone(), n) });
    let label = format!("triangle rule of strength {}, {} subdivisions", s, n);
    ensure_eq!(sub.len(), size * n * n, "{}: number of points", label);
    sanity(&label, Shape::Tri, &sub)?;
    exactness(c, &label, Shape::Tri, &sub, s, s)?;
    c.nontrivial_if(n > 1);
    // piecewise polynomials on the cells: column i, row j, lower or upper half
    let deg = c.int(0, s.min(6));
    let salt = c.below(1000);
    let h = 2.0 / n as f64;
    let poly = |i: usize, j: usize, up: usize| cell_poly(salt, &[i, j, up], deg, 2);
    let mut got = 0.0;
    for (x, w) in &sub {
        let (a, b) = ((x[0] + 1.0) / h, (x[1] + 1.0) / h);
        let (i, j) = (a.floor() as usize, b.floor() as usize);
        let up = (a - a.floor() + b - b.floor() > 1.0) as usize;
        got += w * poly(i, j, up).eval(x);
    }
    let mut exact = 0.0;
    let mut size: f64 = 1.0;
    for i in 0..n {
        for j in 0..n - i {
            for up in 0..2 {
                if i + j + up > n - 1 {
                    continue;
                }
                let p = poly(i, j, up);
                size = size.max(p.size(1.0));
                let (x0, y0) = (-1.0 + i as f64 * h, -1.0 + j as f64 * h);
                exact += (h / 2.0).powi(2)
                    * Shape::Tri.integrate(deg, |x| {
                        let (s, t) = ((x[0] + 1.0) / 2.0 * h, (x[1] + 1.0) / 2.0 * h);
                        if up == 0 {
                            p.eval(&[x0 + s, y0 + t])
                        } else {
                            p.eval(&[x0 + h - s, y0 + h - t])
                        }
                    });
            }
        }
    }
    ensure!((got - exact).abs() <= 1e-11 * size, "{}: integral of a piecewise polynomial of degree {} is {}, not {}", label, deg, got, exact);
    Ok(())
}

/// The trait all rules implement
fn interface(c: &mut Case) -> Res {
    let n = c.int(0, 6);
    let w = c.vec(n, |c| c.grid(40, 8));
    let p: Vec<Vec<f64>> = c.vec(n, |c| c.vec(2, |c| c.grid(40, 8)));
    let pts: Vec<Point2<f64>> = p.iter().map(|p| opoint::<U2>(p)).collect();
    let data: Vec<usize> = c.vec(n, |c| c.int(0, 9));
    c.nontrivial_if(n >= 2);
    let exact: f64 = (0..n).map(|i| w[i] * (p[i][0] - 3.0 * p[i][1])).sum();
    fn check<D: PartialEq + std::fmt::Debug>(q: impl Quadrature<f64, U2, Data = D>, w: &[f64], pts: &[OPoint<f64, U2>], data: &[D], exact: f64) -> Res {
        ensure_eq!(q.weights(), w);
        ensure_eq!(q.points(), pts);
        ensure_eq!(q.data(), data);
        let i: f64 = q.integrate(|x: &Point2<f64>| x[0] - 3.0 * x[1]);
        ensure!(i == exact, "integral {} instead of {}", i, exact);
        let parts = q.to_parts();
        ensure_eq!((parts.weights, parts.points, parts.data), (w, pts, data));
        let list: Vec<(f64, Point2<f64>, &D)> = q.iter().map(|(w, p, d)| (*w, *p, d)).collect();
        ensure_eq!(list.len(), w.len());
        for (k, (x, y, z)) in list.into_iter().enumerate() {
            ensure_eq!((x, y, z), (w[k], pts[k], &data[k]));
        }
        Ok(())
    }
    let unit = vec![(); n];
    let pair = (w.clone(), pts.clone());
    check(&pair, &w, &pts, &unit, exact)?;
    check((&w, &pts), &w, &pts, &unit, exact)?;
    let none = QuadratureParts { weights: w.clone(), points: pts.clone(), data: NoData };
    check(&none, &w, &pts, &unit, exact)?;
    check(none.with_data(data.clone()), &w, &pts, &data, exact)?;
    let parts = fq::OwnedQuadratureParts::from(pair);
    check(&parts, &w, &pts, &unit, exact)?;
    check(parts.with_data(data.clone()), &w, &pts, &data, exact)?;
    let rule: q::Rule<2> = (w.clone(), p.iter().map(|p| [p[0], p[1]]).collect());
    let i = q::integrate(&rule, |x| x[0] - 3.0 * x[1]);
    ensure!(i == exact, "integrate gives {} instead of {}", i, exact);
    let _ = (U1, U3);
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C15",
        rule: "polynomials of degree two or more are possible (strength, gauss, lobatto); the rule is really subdivided (subdivision, huge); at least two points (interface)",
        assumptions: &["the table of available strengths and sizes in the harness"],
        clauses: vec![
            clause("strength", 800_000, 8_000_000, strength_rules),
            clause("gauss", 100_000, 1_000_000, gauss_rules),
            clause("lobatto", 42_000, 420_000, lobatto_rules),
            clause("subdivision-1d", 900_000, 9_000_000, subdivide_1d),
            clause("subdivision-2d", 28_000, 280_000, subdivide_2d),
            clause("huge", 300, 6_000, huge),
            clause("interface", 75_000, 750_000, interface),
        ],
    })
}
