//! C26: polygons that need not be convex, signed distance functions, solid angles and winding numbers.
use fenris::geometry::sdf::*;
use fenris::geometry::util::{compute_orthonormal_vectors_3d, slices_are_equal_shift_invariant};
use fenris::geometry::*;
use fenris::nalgebra::{Isometry3, Point2, Point3, Unit, Vector2, Vector3};
use pbt::planar::*;
use pbt::solid::{add, cross3, dot, mul, norm, sub, unit, V3};
use pbt::*;

fn pt(x: P2) -> Point2<f64> {
    Point2::new(x[0], x[1])
}
fn p2(x: &Point2<f64>) -> P2 {
    [x.x, x.y]
}
fn pt3(x: V3) -> Point3<f64> {
    Point3::from(x)
}

/// Distance of the closest pair of edges without a common vertex, and the smallest angle between neighbouring edges
fn clearance(p: &[P2]) -> f64 {
    let n = p.len();
    let mut m = f64::INFINITY;
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        m = m.min(norm2(sub2(a, b)));
        for j in 0..n {
            if j == i || (j + 1) % n == i || (i + 1) % n == j {
                continue;
            }
            let (hit, gap) = seg_gap(a, b, p[j], p[(j + 1) % n]);
            m = m.min(if hit { 0.0 } else { gap });
        }
        // the angle to the next edge: neither a spike nor a slit
        let (d, e) = (sub2(b, a), sub2(p[(i + 2) % n], b));
        let s = norm2(d).min(norm2(e));
        if n > 2 && dot2(d, e) < 0.0 {
            m = m.min(cross2(d, e).abs() / (norm2(d) * norm2(e)).max(1e-300) * s * 0.3);
        }
    }
    m
}

/// Any simple polygon, in either orientation, together with its size
fn gen_simple(c: &mut Case) -> Result<(Vec<P2>, f64), Stop> {
    let fine = c.bool();
    let many = c.boost > 0;
    let mut p: Vec<P2> = match c.int(0, if many { 1 } else { 3 }) {
        0 => {
            c.class("star-shaped");
            let n = if many { 3 + c.size(150) } else { c.int(3, 12) };
            let o = point2(c, fine);
            (0..n)
                .map(|i| {
                    let r = *c.pick(&[1.0, 2.0, 4.0, 0.5]) * if fine { c.f64(0.7, 1.3) } else { 1.0 };
                    let a = (i as f64 + if fine { c.f64(-0.3, 0.3) } else { 0.0 }) * std::f64::consts::TAU / n as f64;
                    [o[0] + r * a.cos(), o[1] + r * a.sin()]
                })
                .collect()
        }
        1 => {
            c.class("rectilinear");
            // a histogram
            let n = if many { c.size(150).max(1) } else { c.int(1, 5) };
            let hs: Vec<f64> = (0..n).map(|_| c.int(1, 4) as f64).collect();
            let mut p: Vec<P2> = vec![[0.0, 0.0], [n as f64, 0.0]];
            for i in (0..n).rev() {
                for x in [i + 1, i] {
                    p.push([x as f64, hs[i]]);
                }
            }
            p.dedup();
            p
        }
        _ => {
            // random points, uncrossed
            c.class("uncrossed");
            let n = c.int(3, 10);
            let mut p: Vec<P2> = (0..n).map(|_| point2(c, fine)).collect();
            for _ in 0..200 {
                let mut done = true;
                for i in 0..n {
                    for j in i + 2..n {
                        if i == 0 && j == n - 1 {
                            continue;
                        }
                        let (a, b, q, r) = (p[i], p[i + 1], p[j], p[(j + 1) % n]);
                        if norm2(sub2(a, q)) + norm2(sub2(b, r)) < norm2(sub2(a, b)) + norm2(sub2(q, r)) - 1e-9 {
                            p[i + 1..=j].reverse();
                            done = false;
                        }
                    }
                }
                if done {
                    break;
                }
            }
            p
        }
    };
    // vertices in the middle of edges
    if c.chance(1, 6) {
        let i = c.int(0, p.len() - 1);
        let m = lerp2(p[i], p[(i + 1) % p.len()], 0.5);
        p.insert(i + 1, m);
    }
    if c.bool() {
        p.reverse();
    }
    let k = c.int(0, p.len() - 1);
    p.rotate_left(k);
    let d = diameter2(&p);
    if !(clearance(&p) > 1e-3 * d) {
        discard!("not clearly simple");
    }
    let s = if c.bool() { 1.0 } else { c.length_scale(3.0) };
    let t = if c.chance(1, 4) { [c.f64(-9.0, 9.0), c.f64(-9.0, 9.0)] } else { [0.0; 2] };
    for x in p.iter_mut() {
        *x = [s * (x[0] + t[0]), s * (x[1] + t[1])];
    }
    let n = p.len();
    let reflex = {
        let a = area2(&p).signum();
        (0..n).any(|i| a * cross2(sub2(p[(i + 1) % n], p[i]), sub2(p[(i + 2) % n], p[(i + 1) % n])) < 0.0)
    };
    c.class_if(reflex, "concave");
    c.class_if(area2(&p) < 0.0, "clockwise");
    c.nontrivial_if(reflex || n > 4);
    Ok((p, s * (d / s).max(1e-300)))
}

fn poly(p: &[P2]) -> SimplePolygon2d<f64> {
    SimplePolygon2d::from_vertices(p.iter().map(|x| pt(*x)).collect())
}

fn gen_query(c: &mut Case, p: &[P2], d: f64) -> P2 {
    let n = p.len();
    let i = c.int(0, n - 1);
    let (a, b) = (p[i], p[(i + 1) % n]);
    let t = *c.pick(&[0.5, 0.0, 0.25, 0.9, -0.2, 1.3]);
    let x = lerp2(a, b, t);
    let r = d * *c.pick(&[0.0, 0.1, 1e-3, 0.5, 1e-6, 3.0]);
    match c.int(0, 3) {
        0 => {
            let nn = normal2(a, b);
            let r = if c.bool() { r } else { -r };
            [x[0] + r * nn[0], x[1] + r * nn[1]]
        }
        1 => {
            let u = c.unit() * std::f64::consts::TAU;
            [x[0] + r * u.cos(), x[1] + r * u.sin()]
        }
        2 => lerp2(x, p[c.int(0, n - 1)], 0.5),
        _ => {
            let g = point2(c, true);
            [a[0] + g[0] * 0.2 * d, a[1] + g[1] * 0.2 * d]
        }
    }
}

fn polygon(c: &mut Case) -> Res {
    let (p, d) = gen_simple(c)?;
    c.note_debug("polygon", &p);
    let n = p.len();
    let q = poly(&p);
    let m = p.iter().flatten().fold(d, |m: f64, x| m.max(x.abs()));
    // structure
    ensure!(q.num_edges() == n && Polygon2d::num_vertices(&q) == n && q.vertices().iter().map(p2).collect::<Vec<_>>() == p);
    let edges: Vec<(P2, P2)> = (0..n).map(|i| (p[i], p[(i + 1) % n])).collect();
    let seg = |s: &LineSegment2d<f64>| (p2(s.start()), p2(s.end()));
    for i in 0..n + 2 {
        ensure_eq!(q.get_edge(i).as_ref().map(seg), edges.get(i).cloned());
    }
    ensure_eq!(q.edge_iter().map(|s| seg(&s)).collect::<Vec<_>>(), edges);
    let mut visited = vec![];
    q.for_each_edge(|i, s| visited.push((i, seg(&s))));
    ensure_eq!(visited, edges.iter().cloned().enumerate().collect::<Vec<_>>());
    // area and orientation
    let a = area2(&p);
    let tol = 1e-12 * m * m;
    ensure!((q.signed_area() - a).abs() <= tol && (q.area() - a.abs()).abs() <= tol, "signed area {}, area {}, expected {}", q.signed_area(), q.area(), a);
    let o = if a > 0.0 { Orientation::Counterclockwise } else { Orientation::Clockwise };
    ensure!(q.orientation() == o, "orientation {:?}, expected {:?}", q.orientation(), o);
    let b = q.bounding_box();
    for k in 0..2 {
        let (lo, hi) = p.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), x| (l.min(x[k]), h.max(x[k])));
        ensure!(b.min()[k] == lo && b.max()[k] == hi);
    }
    // in space
    let axis = [c.f64(-1.0, 1.0), c.f64(-1.0, 1.0), c.f64(-1.0, 1.0)];
    let iso = Isometry3::new(Vector3::new(1.0, -2.0, 0.5) * d, Vector3::from(axis));
    let s3 = q.apply_isometry(&iso);
    for (x, y) in s3.vertices().iter().zip(&p) {
        ensure!((x - iso * Point3::new(y[0], y[1], 0.0)).norm() <= 1e-12 * (m + 3.0 * d));
    }
    let av = s3.area_vector();
    let want = iso.rotation * Vector3::new(0.0, 0.0, a);
    ensure!((av - want).norm() <= 1e-10 * (m + 3.0 * d).powi(2), "area vector {:?}, expected {:?}", av, want);
    ensure!((s3.area() - a.abs()).abs() <= 1e-10 * (m + 3.0 * d).powi(2), "area in space {}, expected {}", s3.area(), a);
    // pseudonormals
    let unit_n: Vec<P2> = edges.iter().map(|(a, b)| normal2(*a, *b)).collect();
    for i in 0..n {
        let avg = |j: usize| {
            let s = [unit_n[i][0] + unit_n[j][0], unit_n[i][1] + unit_n[j][1]];
            let l = norm2(s);
            [s[0] / l, s[1] / l]
        };
        for (t, w) in [(0.0, avg((i + n - 1) % n)), (1.0, avg((i + 1) % n)), (0.5, unit_n[i]), (1e-3, unit_n[i])] {
            let g = q.pseudonormal_on_edge(i, t).ok_or("no pseudonormal")?;
            let e = norm2(sub2([g.x, g.y], w));
            ensure!(e <= 1e-9 * (m / d).max(1.0), "pseudonormal on edge {} at {} is {:?}, expected {:?}", i, t, g, w);
        }
    }
    ensure!(q.pseudonormal_on_edge(n, 0.5).is_none());
    // moved to another place
    let shift = [c.coord(2.0 * d), c.coord(2.0 * d)];
    let mut moved = q.clone();
    moved.transform_vertices(|v| v.iter_mut().for_each(|x| *x += Vector2::from(shift)));
    let p: Vec<P2> = if c.bool() { p } else { p.iter().map(|x| [x[0] + shift[0], x[1] + shift[1]]).collect() };
    let q = if p2(&q.vertices()[0]) == p[0] { q } else { moved };
    ensure_eq!(q.vertices().iter().map(p2).collect::<Vec<_>>(), p);
    let m = p.iter().flatten().fold(d, |m: f64, x| m.max(x.abs()));
    let edges: Vec<(P2, P2)> = (0..n).map(|i| (p[i], p[(i + 1) % n])).collect();
    // distances
    for _ in 0..4 {
        let x = gen_query(c, &p, d);
        let want = dist_boundary(&p, x);
        let tol = 1e-12 * (m + want);
        let e = q.closest_edge(&pt(x)).ok_or("no closest edge")?;
        ensure!((e.signed_distance.abs() - want).abs() <= tol, "distance of {:?} is {}, expected {}", x, e.signed_distance, want);
        ensure!(e.edge_index < n && e.edge_parameter >= 0.0 && e.edge_parameter <= 1.0, "closest edge {:?}", e);
        let (a, b) = edges[e.edge_index];
        ensure!(norm2(sub2(lerp2(a, b, e.edge_parameter), p2(&e.edge_point))) <= tol, "the closest point of {:?} is {:?}, not at {} of edge {}", x, e.edge_point, e.edge_parameter, e.edge_index);
        ensure!((norm2(sub2(p2(&e.edge_point), x)) - want).abs() <= tol, "the closest point of {:?} is {:?} at distance {}", x, e.edge_point, norm2(sub2(p2(&e.edge_point), x)));
        if want > 1e-9 * m && o == Orientation::Counterclockwise {
            let inside = inside2(&p, x);
            c.class_if(inside, "query inside");
            ensure!((e.signed_distance < 0.0) == inside, "signed distance of {:?} is {}, inside: {}", x, e.signed_distance, inside);
            let dist = q.distance(&pt(x));
            let w = if inside { 0.0 } else { want };
            ensure!((dist - w).abs() <= tol, "distance of {:?} is {}, expected {}", x, dist, w);
            ensure_eq!(q.distance_bound(&pt(x)), [dist, dist]);
        }
    }
    Ok(())
}

fn segments(c: &mut Case) -> Res {
    let (mut p, d) = gen_simple(c)?;
    if area2(&p) < 0.0 {
        p.reverse();
    }
    c.note_debug("polygon", &p);
    let q = poly(&p);
    let m = p.iter().flatten().fold(d, |m: f64, x| m.max(x.abs()));
    let n = p.len();
    let mut some = false;
    for _ in 0..5 {
        let a = gen_query(c, &p, d);
        let b = if c.chance(1, 6) { lerp2(a, p[c.int(0, n - 1)], 0.01) } else { gen_query(c, &p, d) };
        if norm2(sub2(a, b)) < 1e-6 * d {
            continue;
        }
        let mut margin = dist_boundary(&p, a).min(dist_boundary(&p, b));
        let mut crossings = 0;
        for i in 0..n {
            let (hit, gap) = seg_gap(p[i], p[(i + 1) % n], a, b);
            margin = margin.min(gap);
            crossings += hit as usize;
        }
        if margin < 1e-7 * m {
            c.class("too close to call");
            continue;
        }
        let (ia, ib) = (inside2(&p, a), inside2(&p, b));
        let want = crossings > 0 || ia || ib;
        c.class_if(crossings > 0 && !ia && !ib, "through the polygon");
        c.class_if(ia && ib && crossings == 0, "contained");
        c.class_if(!want, "apart");
        some = true;
        for s in [LineSegment2d::from_end_points(pt(a), pt(b)), LineSegment2d::from_end_points(pt(b), pt(a))] {
            let r = q.intersects_segment(&s);
            ensure!(r == want, "segment {:?} to {:?} meets the polygon: {}, expected {} ({} crossings, end points inside: {}, {})", a, b, r, want, crossings, ia, ib);
        }
    }
    if !some {
        discard!("no clear segment");
    }
    let e = SimplePolygon2d::from_vertices(vec![]);
    ensure!(!e.intersects_segment(&LineSegment2d::from_end_points(pt([0.0; 2]), pt([1.0; 2]))) && e.closest_edge(&pt([0.0; 2])).is_none());
    Ok(())
}

/// Triangulation of convex polygons, quadrilaterals of any shape, triangles
fn small(c: &mut Case) -> Res {
    let fine = c.bool();
    // convex polygons
    let s = if c.bool() { 1.0 } else { c.length_scale(3.0) };
    if let Some(p) = gen_convex(c, fine) {
        let p: Vec<P2> = p.iter().map(|x| [s * x[0], s * x[1]]).collect();
        let d = diameter2(&p);
        let m = p.iter().flatten().fold(d, |m: f64, x| m.max(x.abs()));
        let q = poly(&p);
        let n = p.len();
        let verts = |t: &Triangle2d<f64>| t.0.iter().map(p2).collect::<Vec<_>>();
        let x = if c.bool() { lerp2(p[0], p[c.int(0, n - 1)], 0.4) } else { p[c.int(0, n - 1)] };
        let (t1, t2) = (q.assume_convex().triangulate(), q.assume_convex().triangulate_at_point(&pt(x)));
        ensure!(t1.len() == n - 2 && t2.len() == n, "{} and {} triangles of {} vertices", t1.len(), t2.len(), n);
        for t in [&t1, &t2] {
            let a: f64 = t.iter().map(|t| area2(&verts(t))).sum();
            ensure!((a - area2(&p)).abs() <= 1e-12 * m * m, "areas sum to {}, expected {}", a, area2(&p));
            ensure!(t.iter().all(|t| area2(&verts(t)) >= -1e-12 * m * m), "clockwise triangles");
        }
        ensure!(t2.iter().enumerate().all(|(i, t)| verts(t) == vec![x, p[i], p[(i + 1) % n]]));
        ensure!(t1.iter().all(|t| verts(t).iter().all(|v| p.contains(v))), "new vertices");
        let e = SimplePolygon2d::<f64>::from_vertices(vec![]);
        ensure!(e.assume_convex().triangulate().is_empty());
        c.note_debug("convex", &p);
    }
    // quadrilaterals
    let v: Vec<P2> = (0..4).map(|_| point2(c, fine).map(|x| s * x)).collect();
    let d = diameter2(&v);
    if clearance(&v) > 1e-3 * d {
        c.nontrivial();
        let m = v.iter().flatten().fold(d, |m: f64, x| m.max(x.abs()));
        c.note_debug("quadrilateral", &v);
        let q = Quad2d([pt(v[0]), pt(v[1]), pt(v[2]), pt(v[3])]);
        let a = area2(&v);
        let turn: Vec<f64> = (0..4).map(|i| a.signum() * cross2(sub2(v[i], v[(i + 3) % 4]), sub2(v[(i + 1) % 4], v[i]))).collect();
        let clear = turn.iter().all(|t| t.abs() > 1e-9 * m * m);
        c.class_if(turn.iter().any(|t| *t < 0.0), "concave quadrilateral");
        if clear {
            let want = (0..4).find(|i| turn[*i] < 0.0);
            ensure!(q.concave_corner() == want, "concave corner {:?}, expected {:?}", q.concave_corner(), want);
        }
        ensure!((q.area() - a.abs()).abs() <= 1e-12 * m * m, "area {}, expected {}", q.area(), a.abs());
        let (c1, c2) = q.split_into_triangle_connectivities();
        let (t1, t2) = q.split_into_triangles();
        let mut sum = 0.0;
        for (cn, t) in [(c1, t1), (c2, t2)] {
            let w: Vec<P2> = cn.iter().map(|i| v[*i]).collect();
            ensure!(t.0.iter().map(p2).collect::<Vec<_>>() == w, "triangle {:?} of vertices {:?}", t, cn);
            ensure!(area2(&w) * a.signum() >= -1e-12 * m * m, "triangle {:?} has the wrong orientation", cn);
            sum += area2(&w);
        }
        ensure!((sum - a).abs() <= 1e-12 * m * m);
        let shared = c1.iter().filter(|i| c2.contains(i)).count();
        ensure!(shared == 2, "triangles {:?} and {:?} share {} vertices", c1, c2, shared);
        if a > 0.0 {
            let x = gen_query(c, &v, d);
            let b = dist_boundary(&v, x);
            let w = if inside2(&v, x) { 0.0 } else { b };
            ensure!((q.distance(&pt(x)) - w).abs() <= 1e-12 * (m + b) || b <= 1e-12 * m, "distance of {:?} is {}, expected {}", x, q.distance(&pt(x)), w);
        }
        let bb = q.bounding_box();
        ensure!(v.iter().all(|x| bb.contains_point(&pt(*x))));
    }
    // triangles
    let v: Vec<P2> = (0..3).map(|_| point2(c, fine).map(|x| s * x)).collect();
    let d = diameter2(&v);
    let mut t = Triangle2d::from(Triangle([pt(v[0]), pt(v[1]), pt(v[2])]));
    c.note_debug("triangle", &v);
    let a = area2(&v);
    let m = v.iter().flatten().fold(d, |m: f64, x| m.max(x.abs()));
    ensure!((t.signed_area() - a).abs() <= 1e-13 * m * m && (t.area() - a.abs()).abs() <= 1e-13 * m * m);
    for i in 0..3 {
        let j = (i + 1) % 3;
        ensure!(p2(t.edge(i).start()) == v[i] && p2(t.edge(i).end()) == v[j]);
        let s = t.sides()[i];
        ensure!([s.x, s.y] == sub2(v[j], v[i]));
    }
    let g = t.centroid();
    ensure!(norm2(sub2(p2(&g), [(v[0][0] + v[1][0] + v[2][0]) / 3.0, (v[0][1] + v[1][1] + v[2][1]) / 3.0])) <= 1e-13 * m);
    let o = predicates::orient2d_inexact(&pt(v[0]), &pt(v[1]), &pt(v[2]));
    ensure!((o - 2.0 * a).abs() <= 1e-12 * m * m, "orientation {}, expected {}", o, 2.0 * a);
    if a.abs() > 1e-4 * d * d {
        let w = if a > 0.0 { Orientation::Counterclockwise } else { Orientation::Clockwise };
        ensure!(t.orientation() == w, "orientation {:?}, expected {:?}", t.orientation(), w);
        let mut v = v.clone();
        if a < 0.0 {
            t.swap_vertices(0, 2);
            v.swap(0, 2);
        }
        for _ in 0..3 {
            let x = gen_query(c, &v, d);
            let b = dist_boundary(&v, x);
            let r = t.query_signed_distance(&pt(x)).ok_or("no signed distance")?;
            let tol = 1e-12 * (m + b);
            ensure!((r.signed_distance.abs() - b).abs() <= tol, "distance of {:?} is {}, expected {}", x, r.signed_distance, b);
            ensure!((norm2(sub2(p2(&r.point), x)) - b).abs() <= tol && r.feature_id < 3, "closest point {:?}", r);
            ensure!(dist_seg2(v[r.feature_id], v[(r.feature_id + 1) % 3], p2(&r.point)) <= tol, "closest point {:?}", r);
            if b > 1e-9 * m {
                let inside = inside2(&v, x);
                ensure!((r.signed_distance < 0.0) == inside, "signed distance of {:?} is {}, inside: {}", x, r.signed_distance, inside);
                ensure!((t.distance(&pt(x)) - if inside { 0.0 } else { b }).abs() <= tol, "distance of {:?} is {}", x, t.distance(&pt(x)));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum Shape {
    Disk(P2, f64),
    Box(P2, P2),
}

impl Shape {
    fn sd(&self, x: P2) -> f64 {
        match self {
            Shape::Disk(c, r) => norm2(sub2(x, *c)) - r,
            Shape::Box(lo, hi) => {
                let p = [*lo, [hi[0], lo[1]], *hi, [lo[0], hi[1]]];
                let b = dist_boundary(&p, x);
                let inside = (0..2).all(|k| x[k] >= lo[k] && x[k] <= hi[k]);
                if inside {
                    -b
                } else {
                    b
                }
            }
        }
    }
    /// The gradient, and how far the point is from where there is none
    fn grad(&self, x: P2) -> (P2, f64) {
        match self {
            Shape::Disk(c, _) => {
                let d = sub2(x, *c);
                let l = norm2(d);
                ([d[0] / l, d[1] / l], l)
            }
            Shape::Box(lo, hi) => {
                let y = [x[0].clamp(lo[0], hi[0]), x[1].clamp(lo[1], hi[1])];
                let d = sub2(x, y);
                let l = norm2(d);
                let mut gaps: Vec<(f64, P2)> = vec![];
                for k in 0..2 {
                    let mut n = [0.0; 2];
                    n[k] = 1.0;
                    gaps.push((hi[k] - x[k], n));
                    n[k] = -1.0;
                    gaps.push((x[k] - lo[k], n));
                }
                if l > 0.0 {
                    ([d[0] / l, d[1] / l], l)
                } else {
                    gaps.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
                    (gaps[0].1, gaps[1].0 - gaps[0].0)
                }
            }
        }
    }
    fn make(&self) -> Box<dyn Sdf> {
        match self {
            Shape::Disk(c, r) => Box::new(SdfCircle { radius: *r, center: Vector2::new(c[0], c[1]) }),
            Shape::Box(lo, hi) => Box::new(SdfAxisAlignedBox { aabb: AxisAlignedBoundingBox::new(pt(*lo), pt(*hi)) }),
        }
    }
}

trait Sdf {
    fn ev(&self, x: P2) -> f64;
    fn gr(&self, x: P2) -> Option<P2>;
    fn bb(&self) -> (P2, P2);
}
impl<S: BoundedSdf<f64>> Sdf for S {
    fn ev(&self, x: P2) -> f64 {
        self.eval(&pt(x))
    }
    fn gr(&self, x: P2) -> Option<P2> {
        self.gradient(&pt(x)).map(|g| [g.x, g.y])
    }
    fn bb(&self) -> (P2, P2) {
        let b = self.bounding_box();
        (p2(b.min()), p2(b.max()))
    }
}
struct Dynamic(Box<dyn Sdf>);
impl SignedDistanceFunction2d<f64> for Dynamic {
    fn eval(&self, x: &Point2<f64>) -> f64 {
        self.0.ev(p2(x))
    }
    fn gradient(&self, x: &Point2<f64>) -> Option<Vector2<f64>> {
        self.0.gr(p2(x)).map(|g| Vector2::new(g[0], g[1]))
    }
}
impl BoundedGeometry<f64> for Dynamic {
    type Dimension = fenris::nalgebra::U2;
    fn bounding_box(&self) -> AxisAlignedBoundingBox2d<f64> {
        let (a, b) = self.0.bb();
        AxisAlignedBoundingBox::new(pt(a), pt(b))
    }
}

fn sdf(c: &mut Case) -> Res {
    let fine = c.bool();
    let n = c.int(1, 4);
    let unit = if c.bool() { 1.0 } else { c.length_scale(3.0) };
    let shapes: Vec<Shape> = (0..n)
        .map(|_| {
            let o = point2(c, fine).map(|x| unit * x);
            if c.bool() {
                Shape::Disk(o, unit * *c.pick(&[1.0, 0.5, 3.0, 0.05]))
            } else {
                let w = [unit * *c.pick(&[1.0, 0.5, 3.0, 0.05]), unit * *c.pick(&[1.0, 0.5, 3.0, 0.05])];
                Shape::Box([o[0] - w[0], o[1] - w[1]], [o[0] + w[0], o[1] + w[1]])
            }
        })
        .collect();
    c.note_debug("shapes", &shapes);
    c.nontrivial_if(n > 1);
    // a union of all, nested in some way
    let mut parts: Vec<Box<dyn Sdf>> = shapes.iter().map(|s| s.make()).collect();
    while parts.len() > 1 {
        let i = c.int(0, parts.len() - 1 - 1);
        let (a, b) = (parts.remove(i), parts.remove(i));
        parts.insert(i, Box::new(Dynamic(a).union(Dynamic(b))));
    }
    let f = parts.pop().unwrap();
    let (lo, hi) = f.bb();
    for s in &shapes {
        let (a, b) = match s {
            Shape::Disk(o, r) => ([o[0] - r, o[1] - r], [o[0] + r, o[1] + r]),
            Shape::Box(a, b) => (*a, *b),
        };
        ensure!((0..2).all(|k| lo[k] <= a[k] && hi[k] >= b[k]), "bounding box {:?} to {:?} does not contain {:?}", lo, hi, s);
        let w = (b[0] - a[0]).max(b[1] - a[1]);
        let single = n == 1;
        ensure!(!single || (0..2).all(|k| lo[k] >= a[k] - 0.1 * w && hi[k] <= b[k] + 0.1 * w), "bounding box {:?} to {:?} of {:?}", lo, hi, s);
    }
    for _ in 0..5 {
        let x = match c.int(0, 2) {
            0 => point2(c, fine).map(|x| unit * x),
            1 => {
                // near or at the boundary, or the middle
                let o = match c.pick(&shapes) {
                    Shape::Disk(o, r) => [o[0], o[1] + *r],
                    Shape::Box(a, b) => [0.5 * (a[0] + b[0]), 0.5 * (a[1] + b[1])],
                };
                [o[0] + unit * c.grid(3, 3) * 0.1, o[1] + unit * c.grid(3, 3) * 0.1]
            }
            _ => [unit * c.f64(-9.0, 9.0), unit * c.f64(-9.0, 9.0)],
        };
        let d: Vec<f64> = shapes.iter().map(|s| s.sd(x)).collect();
        let w = d.iter().copied().fold(f64::INFINITY, f64::min);
        let v = f.ev(x);
        ensure!((v - w).abs() <= 1e-13 * 20.0 * unit, "value at {:?} is {}, expected {}", x, v, w);
        let g = f.gr(x);
        if let Some(g) = g {
            ensure!((norm2(g) - 1.0).abs() <= 1e-9, "gradient at {:?} is {:?}", x, g);
        }
        let mut order: Vec<usize> = (0..n).collect();
        order.sort_by(|a, b| d[*a].partial_cmp(&d[*b]).unwrap());
        let (gw, clear) = shapes[order[0]].grad(x);
        let unique = n == 1 || d[order[1]] - d[order[0]] > 1e-9 * unit;
        if clear > 1e-6 * unit && unique {
            let g = g.ok_or_else(|| format!("no gradient at {:?}", x))?;
            ensure!(norm2(sub2(g, gw)) <= 1e-6, "gradient at {:?} is {:?}, expected {:?}", x, g, gw);
            c.class("gradient");
        } else if clear == 0.0 && unique {
            c.class("no gradient");
        }
    }
    Ok(())
}

/// A closed star-shaped surface with outward triangles, and its centre
fn gen_surface(c: &mut Case) -> (V3, Vec<[V3; 3]>) {
    let o = [c.grid(4, 2), c.grid(4, 2), c.grid(4, 2)];
    let mut v: Vec<V3> = vec![[1., 0., 0.], [-1., 0., 0.], [0., 1., 0.], [0., -1., 0.], [0., 0., 1.], [0., 0., -1.]];
    let mut f: Vec<[usize; 3]> = vec![[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]];
    if c.chance(1, 3) {
        v = vec![[1., 1., 1.], [1., -1., -1.], [-1., 1., -1.], [-1., -1., 1.]];
        f = vec![[0, 2, 3], [0, 1, 2], [0, 3, 1], [1, 3, 2]];
        f.iter_mut().for_each(|t| {
            let n = cross3(sub(v[t[1]], v[t[0]]), sub(v[t[2]], v[t[0]]));
            if dot(n, v[t[0]]) < 0.0 {
                t.swap(1, 2);
            }
        });
    }
    let splits = if c.boost > 0 { c.size(400) } else { c.int(0, 6) };
    for _ in 0..splits {
        // split a face in three
        let k = c.int(0, f.len() - 1);
        let [a, b, d] = f[k];
        let w = [c.f64(0.2, 1.0), c.f64(0.2, 1.0), c.f64(0.2, 1.0)];
        let s = w[0] + w[1] + w[2];
        let m = add(add(mul(v[a], w[0] / s), mul(v[b], w[1] / s)), mul(v[d], w[2] / s));
        v.push(unit(m));
        let i = v.len() - 1;
        f[k] = [a, b, i];
        f.push([b, d, i]);
        f.push([d, a, i]);
    }
    for x in v.iter_mut() {
        let r = c.f64(0.3, 1.5);
        *x = add(o, mul(unit(*x), r));
    }
    (o, f.iter().map(|t| [v[t[0]], v[t[1]], v[t[2]]]).collect())
}

/// Distance of a point to a triangle, by its projection
fn tri_dist(t: &[V3; 3], x: V3) -> f64 {
    let n = cross3(sub(t[1], t[0]), sub(t[2], t[0]));
    let l = norm(n);
    let inside = (0..3).all(|i| dot(cross3(sub(t[(i + 1) % 3], t[i]), sub(x, t[i])), n) >= 0.0);
    if inside && l > 0.0 {
        return (dot(n, sub(x, t[0])) / l).abs();
    }
    (0..3)
        .map(|i| {
            let (a, b) = (t[i], t[(i + 1) % 3]);
            let d = sub(b, a);
            let s = (dot(sub(x, a), d) / dot(d, d)).clamp(0.0, 1.0);
            norm(sub(x, add(a, mul(d, s))))
        })
        .fold(f64::INFINITY, f64::min)
}

fn winding(c: &mut Case) -> Res {
    let (o, tris) = gen_surface(c);
    let s = if c.bool() { 1.0 } else { c.length_scale(3.0) };
    let sc = |x: V3| mul(x, s);
    let tris: Vec<[V3; 3]> = tris.iter().map(|t| t.map(sc)).collect();
    let o = sc(o);
    c.note_debug("triangles", &tris);
    let make = |t: &[V3; 3]| Triangle([pt3(t[0]), pt3(t[1]), pt3(t[2])]);
    let mut some = false;
    for _ in 0..3 {
        let t = *c.pick(&tris);
        let on = {
            let w = [c.unit() + 0.01, c.unit() + 0.01, c.unit() + 0.01];
            let k = w[0] + w[1] + w[2];
            add(add(mul(t[0], w[0] / k), mul(t[1], w[1] / k)), mul(t[2], w[2] / k))
        };
        let n = unit(cross3(sub(t[1], t[0]), sub(t[2], t[0])));
        let h = s * *c.pick(&[0.1, 1e-2, 1e-4, 1e-6, 1.0, 100.0, 0.0]) * if c.bool() { 1.0 } else { -1.0 };
        let x = match c.int(0, 2) {
            0 => add(on, mul(n, h)),
            1 => add(o, mul(sub(on, o), *c.pick(&[0.5, 0.0, 0.9, 1.1, 0.999, 1.001, 50.0]))),
            _ => add(o, mul([c.f64(-2.0, 2.0), c.f64(-2.0, 2.0), c.f64(-2.0, 2.0)], s)),
        };
        let gap = tris.iter().map(|t| tri_dist(t, x)).fold(f64::INFINITY, f64::min);
        if gap < 1e-7 * s {
            continue;
        }
        // star-shaped: inside if and only if in one of the tetrahedra at the centre
        let side = |a: V3, b: V3, c: V3, x: V3| dot(cross3(sub(b, a), sub(c, a)), sub(x, a));
        let mut clear = true;
        let mut inside = false;
        for t in &tris {
            let vol = side(t[0], t[1], t[2], o).abs();
            let b = [side(t[0], t[1], t[2], x), side(o, t[1], t[0], x), side(o, t[2], t[1], x), side(o, t[0], t[2], x)];
            clear &= vol > 1e-6 * s * s * s;
            inside |= b.iter().all(|v| *v <= 1e-13 * s * s * s);
        }
        if !clear {
            continue;
        }
        some = true;
        c.class_if(inside, "inside");
        c.class_if(gap < 1e-3 * s, "near the surface");
        c.note(|| format!("point {:?}, inside: {}, at distance {}", x, inside, gap));
        let far = norm(sub(x, o)) / s + 1.0;
        let tol = 1e-7 * far;
        let w = compute_winding_number_for_triangles_3d(tris.iter().map(make), &pt3(x));
        let want = if inside { 1.0 } else { 0.0 };
        ensure!((w - want).abs() <= tol, "winding number at {:?} is {}, expected {}", x, w, want);
        // reversed
        let r = compute_winding_number_for_triangles_3d(tris.iter().map(|t| make(&[t[0], t[2], t[1]])), &pt3(x));
        ensure!((r + want).abs() <= tol, "winding number of the reversed surface at {:?} is {}, expected {}", x, r, -want);
        // solid angles of single triangles: by the angles between the faces of the trihedron
        for t in tris.iter().take(4) {
            let [a, b, d] = t.map(|v| unit(sub(v, x)));
            let det = dot(a, cross3(b, d));
            let angle = |a: V3, b: V3, d: V3| {
                // at the edge a
                let (p, q) = (sub(b, mul(a, dot(a, b))), sub(d, mul(a, dot(a, d))));
                norm(cross3(p, q)).atan2(dot(p, q))
            };
            let flat = [(a, b), (b, d), (d, a)].iter().any(|(p, q)| norm(cross3(*p, *q)) < 1e-3);
            if flat || det.abs() < 1e-6 {
                continue;
            }
            let want = (angle(a, b, d) + angle(b, d, a) + angle(d, a, b) - std::f64::consts::PI) * det.signum();
            let got = make(t).compute_solid_angle(&pt3(x));
            ensure!((got - want).abs() <= 1e-6, "solid angle of {:?} from {:?} is {}, expected {}", t, x, got, want);
        }
    }
    if !some {
        discard!("no clear point");
    }
    c.nontrivial();
    ensure!(compute_winding_number_for_triangles_3d(std::iter::empty::<Triangle3d<f64>>(), &pt3(o)) == 0.0);
    Ok(())
}

fn misc(c: &mut Case) -> Res {
    // tangent vectors
    let v = match c.int(0, 2) {
        0 => *c.pick(&[[0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0000000000000002], [1e-9, 0.0, -1.0], [0.6, 0.8, -0.0]]),
        _ => [c.coord(1.0), c.coord(1.0), c.coord(1.0)],
    };
    if norm(v) > 1e-3 {
        let n = Unit::new_normalize(Vector3::from(v));
        let [a, b] = compute_orthonormal_vectors_3d(&n);
        let tol = 1e-13;
        let ok = [(&a, &n), (&b, &n), (&a, &b)].iter().all(|(x, y)| x.dot(y).abs() <= tol) && (a.norm() - 1.0).abs() <= tol && (b.norm() - 1.0).abs() <= tol;
        ensure!(ok, "tangents {:?} and {:?} of {:?}", a, b, n);
        ensure!((a.cross(&b) - n.into_inner()).norm() <= 1e-12, "tangents {:?} and {:?} of {:?} are not oriented", a, b, n);
        let p = Plane::from_point_and_normal(Point3::new(1.0, 2.0, 3.0), n);
        ensure!(p.compute_tangent_vectors() == [a, b] && *p.normal() == n && *p.point() == Point3::new(1.0, 2.0, 3.0));
        ensure!(p.flipped().normal().into_inner() == -n.into_inner() && p.flipped().point() == p.point() && p.flipped().flipped() == p);
    }
    // rotations of lists
    let k = c.int(0, 6);
    let x: Vec<usize> = (0..k).map(|_| c.int(0, 2)).collect();
    let mut y = x.clone();
    if k > 0 {
        let r = c.int(0, k - 1);
        y.rotate_left(r);
    }
    if c.bool() {
        match c.int(0, 3) {
            0 => y.push(1),
            1 => y.reverse(),
            2 if k > 0 => y[c.int(0, k - 1)] += 1,
            _ => {
                y.pop();
            }
        }
    }
    let want = x.len() == y.len() && (0..x.len().max(1)).any(|r| (0..x.len()).all(|i| x[(i + r) % x.len()] == y[i]));
    c.nontrivial_if(k > 1);
    let got = slices_are_equal_shift_invariant(&x, &y, |a, b| a == b);
    ensure!(got == want, "{:?} is a rotation of {:?}: {}, expected {}", y, x, got, want);
    Ok(())
}

/// Polygons with many vertices
fn huge(c: &mut Case) -> Res {
    c.boost = 1;
    match c.int(0, 3) {
        0 => polygon(c),
        1 => segments(c),
        2 => small(c),
        _ => winding(c),
    }
}

fn main() {
    pbt::main(Property {
        id: "C26",
        rule: "the polygon is concave or has more than four vertices; several shapes (sdf); a point at least 1e-7 of the size off the surface (winding); huge: the same with up to 150 vertices",
        assumptions: &[
            "polygons whose edges come closer than 1e-3 of the diameter to each other, or form angles below about 0.2 degrees, are left out; signs are compared for points at least 1e-9 of the size from the boundary, intersections for segments at least 1e-7 away from touching",
            "signed distances assume counter-clockwise polygons, as documented",
        ],
        clauses: vec![
            clause("polygon", 1_600_000, 20_000_000, polygon),
            clause("segments", 1_000_000, 20_000_000, segments),
            clause("small", 2_300_000, 23_000_000, small),
            clause("sdf", 4_000_000, 40_000_000, sdf),
            clause("winding", 1_200_000, 12_000_000, winding),
            clause("misc", 4_000_000, 40_000_000, misc),
            clause("huge", 60000, 600000, huge),
        ],
    })
}
