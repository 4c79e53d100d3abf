//! C23: planar clipping, segment queries and closest points.
use fenris::geometry::*;
use fenris::nalgebra::{vector, Isometry3, Point2, Point3, Translation3, Unit, UnitQuaternion, Vector2, Vector3};
use pbt::planar::*;
use pbt::solid::{self, V3};
use fenris::element::{Quad4d2Element, Quad9d2Element};
use pbt::*;
use std::cell::Cell;
use std::convert::TryFrom;

thread_local! {
    static UNIT: Cell<f64> = Cell::new(1.0);
}

/// The library sees all lengths in this unit, a power of two, so that conversions are exact
fn unit() -> f64 {
    UNIT.with(|u| u.get())
}
fn choose_unit(c: &mut Case) {
    let u = if c.bool() { 1.0 } else { 2f64.powi(c.sint(-80, 80) as i32) };
    if u != 1.0 {
        c.class("other unit of length");
        c.note(|| format!("in units of {:?}", u));
    }
    UNIT.with(|x| x.set(u));
}
fn pt(p: P2) -> Point2<f64> {
    Point2::new(p[0] * unit(), p[1] * unit())
}
fn p2(p: &Point2<f64>) -> P2 {
    [p.x / unit(), p.y / unit()]
}
fn pt3(p: V3) -> Point3<f64> {
    Point3::from(p) * unit()
}
fn p3(p: &Point3<f64>) -> V3 {
    [p.x / unit(), p.y / unit(), p.z / unit()]
}
fn poly(p: &[P2]) -> ConvexPolygon<f64> {
    ConvexPolygon::from_vertices(p.iter().map(|x| pt(*x)).collect())
}
fn verts(p: &ConvexPolygon<f64>) -> Vec<P2> {
    p.vertices().iter().map(p2).collect()
}
fn seg(a: P2, b: P2) -> LineSegment2d<f64> {
    LineSegment2d::from_end_points(pt(a), pt(b))
}

/// Another convex polygon, often in a special position with respect to the first
fn gen_other(c: &mut Case, p: &[P2], fine: bool) -> Option<Vec<P2>> {
    let k = c.int(0, p.len() - 1);
    let (a, b) = (p[k], p[(k + 1) % p.len()]);
    Some(match c.int(0, 6) {
        0 | 1 => {
            c.class("independent");
            gen_convex(c, fine)?
        }
        2 => {
            c.class("the same");
            p.to_vec()
        }
        3 => {
            c.class("nested");
            let m = [(a[0] + b[0]) / 2.0, (a[1] + b[1]) / 2.0];
            let m = lerp2(m, p[(k + 2) % p.len()], c.pick(&[0.0, 0.25, 0.5]).clone());
            p.iter().map(|x| lerp2(m, *x, 0.5)).collect()
        }
        4 => {
            c.class("mirrored at an edge");
            let n = normal2(a, b);
            let mut q: Vec<P2> = p
                .iter()
                .enumerate()
                .map(|(i, x)| {
                    if i == k || i == (k + 1) % p.len() {
                        return *x;
                    }
                    let s = 2.0 * dot2(n, sub2(*x, a));
                    [x[0] - s * n[0], x[1] - s * n[1]]
                })
                .collect();
            q.reverse();
            q
        }
        5 => {
            c.class("touching or moved");
            let l = c.int(0, p.len() - 1);
            let d = sub2(a, p[l]);
            p.iter().map(|x| [x[0] + d[0], x[1] + d[1]]).collect()
        }
        _ => {
            c.class("disjoint");
            p.iter().map(|x| [x[0] + 16.0, x[1] + 4.0]).collect()
        }
    })
}

/// `got` is a convex polygon with the points of `want` (up to rounding), inside of all of `within`
fn same_polygon(c: &mut Case, got: &ConvexPolygon<f64>, want: &[P2], within: &[Vec<P2>], half: Option<(P2, P2)>, scale: f64) -> Res {
    let g = verts(got);
    let tol = 1e-9 * scale;
    ensure!(g.iter().flatten().all(|x| x.is_finite()), "vertices {:?}", g);
    let (ga, wa) = (area2(&g), area2(want));
    ensure!((ga - wa).abs() <= 1e-9 * scale * scale, "area {}, expected {} (polygon {:?}, expected {:?})", ga, wa, g, want);
    let n = g.len();
    for i in 0..n {
        let (a, b, d) = (g[i], g[(i + 1) % n], g[(i + 2) % n]);
        let turn = cross2(sub2(b, a), sub2(d, b));
        ensure!(turn >= -tol * scale, "not convex at {:?}: {:?}", b, g);
        for w in within {
            ensure!(excess(w, a) <= tol, "vertex {:?} is outside of {:?}", a, w);
        }
        if let Some((p, m)) = half {
            ensure!(dot2(m, sub2(a, p)) <= tol, "vertex {:?} is outside of the half-plane", a);
        }
    }
    ensure!(got.num_edges() == n && got.is_empty() == (n == 0));
    // membership
    let clear = (0..n).all(|i| {
        let l = norm2(sub2(g[i], g[(i + 1) % n]));
        l == 0.0 || l > 1e-4 * scale
    });
    if n == 1 || n == 2 || !clear {
        c.class("degenerate result");
        return Ok(());
    }
    let margin = 1e-6 * scale;
    for k in 0..6 {
        let x: P2 = if k < 2 && !within.is_empty() {
            // near a corner of an operand
            let w = c.pick(within).clone();
            let v = *c.pick(&w);
            [v[0] + c.f64(-0.1, 0.1), v[1] + c.f64(-0.1, 0.1)]
        } else if k < 4 && n > 0 {
            let (i, j) = (c.int(0, n - 1), c.int(0, n - 1));
            let m = lerp2(g[i], g[j], c.unit());
            lerp2(m, g[c.int(0, n - 1)], c.f64(0.0, 1.2))
        } else {
            [c.f64(-6.0, 6.0), c.f64(-6.0, 6.0)]
        };
        let mut e = within.iter().map(|w| excess(w, x)).fold(f64::NEG_INFINITY, f64::max);
        if let Some((p, m)) = half {
            e = e.max(dot2(m, sub2(x, p)));
        }
        if e.abs() < margin {
            continue;
        }
        ensure!(got.contains_point(&pt(x)) == (e < 0.0), "{:?} contains {:?}: {}, but all operands do: {}", g, x, got.contains_point(&pt(x)), e < 0.0);
    }
    Ok(())
}

fn gen_half(c: &mut Case, p: &[P2], fine: bool) -> Option<(P2, P2)> {
    let k = c.int(0, p.len() - 1);
    let (a, b) = (p[k], p[(k + 1) % p.len()]);
    let dir = |c: &mut Case| -> P2 {
        if c.bool() {
            *c.pick(&[[1.0, 0.0], [-1.0, 0.0], [0.0, 1.0], [0.0, -1.0]])
        } else {
            let t = c.f64(0.0, std::f64::consts::TAU);
            [t.cos(), t.sin()]
        }
    };
    Some(match c.int(0, 5) {
        0 | 1 => {
            c.class("any half-plane");
            (point2(c, fine), dir(c))
        }
        2 => {
            c.class("through a vertex");
            (a, dir(c))
        }
        3 => {
            c.class("along an edge");
            let n = normal2(a, b);
            if c.bool() { (a, n) } else { (b, [-n[0], -n[1]]) }
        }
        4 => {
            c.class("parallel to an edge");
            let n = normal2(a, b);
            let s = c.f64(-2.0, 2.0);
            ([a[0] + s * n[0], a[1] + s * n[1]], n)
        }
        _ => {
            c.class("through two vertices");
            let d = p[c.int(0, p.len() - 1)];
            if d == a {
                return None;
            }
            (a, normal2(a, d))
        }
    })
}

fn half_plane(h: (P2, P2)) -> HalfPlane<f64> {
    HalfPlane::from_point_and_normal(pt(h.0), Unit::new_normalize(Vector2::new(h.1[0], h.1[1])))
}

macro_rules! some {
    ($e:expr) => {
        match $e {
            Some(x) => x,
            None => discard!("degenerate"),
        }
    };
}

fn clip_half(c: &mut Case) -> Res {
    choose_unit(c);
    let fine = c.bool();
    let p = some!(gen_convex(c, fine));
    let h = some!(gen_half(c, &p, fine));
    let scale = diameter2(&p).max(1.0) + norm2(p[0]);
    c.note(|| format!("polygon {:?}, point {:?}, normal {:?}", p, h.0, h.1));
    let hp = half_plane(h);
    let neg = [-h.1[0], -h.1[1]];
    let (w, v) = (clip2(&p, h.0, h.1), clip2(&p, h.0, neg));
    c.nontrivial_if(area2(&w) > 1e-6 && area2(&v) > 1e-6);
    c.class_if(area2(&w).min(area2(&v)) <= 1e-6, "not cut");
    let got = poly(&p).intersect_halfplane(&hp);
    same_polygon(c, &got, &w, &[p.clone()], Some(h), scale)?;
    let rest = poly(&p).intersect_halfplane(&hp.complement());
    same_polygon(c, &rest, &v, &[p.clone()], Some((h.0, neg)), scale)?;
    // clipping again changes nothing but rounding
    let again = got.intersect_halfplane(&hp);
    let (x, y) = (area2(&verts(&again)), area2(&verts(&got)));
    ensure!((x - y).abs() <= 1e-9 * scale * scale, "clipping again changes the area from {} to {}", y, x);
    // a single point
    let one = poly(&[p[0]]);
    let e = dot2(h.1, sub2(p[0], h.0));
    if e.abs() > 1e-9 {
        ensure_eq!(verts(&one.intersect_halfplane(&hp)), if e < 0.0 { vec![p[0]] } else { vec![] });
    }
    ensure!(poly(&[]).intersect_halfplane(&hp).is_empty());
    Ok(())
}

fn clip_polygon(c: &mut Case) -> Res {
    choose_unit(c);
    let fine = c.bool();
    let p = some!(gen_convex(c, fine));
    let q = some!(gen_other(c, &p, fine));
    let scale = diameter2(&p).max(diameter2(&q)).max(1.0) + norm2(p[0]) + norm2(q[0]);
    c.note(|| format!("polygons {:?} and {:?}", p, q));
    let w = clip_by(&p, &q);
    c.nontrivial_if(area2(&w) > 1e-6);
    c.class_if(area2(&w) <= 1e-6, "no common area");
    let ab = poly(&p).intersect_polygon(&poly(&q));
    same_polygon(c, &ab, &w, &[p.clone(), q.clone()], None, scale)?;
    let ba = poly(&q).intersect_polygon(&poly(&p));
    same_polygon(c, &ba, &w, &[p.clone(), q.clone()], None, scale)?;
    let none = poly(&[]);
    ensure!(none.intersect_polygon(&poly(&p)).is_empty(), "the empty polygon has common points with {:?}", p);
    ensure!(poly(&p).intersect_polygon(&none).is_empty(), "{:?} has common points with the empty polygon", p);
    ensure!(seg(p[0], p[1]).intersect_polygon(&none).is_none(), "a segment has common points with the empty polygon");
    ensure!(!none.contains_point(&pt(p[0])), "the empty polygon contains {:?}", p[0]);
    Ok(())
}

/// Three convex polygons, one after the other (results are used as operands when they have no tiny edges)
fn clip_chain(c: &mut Case) -> Res {
    choose_unit(c);
    let fine = c.bool();
    let mut p = some!(gen_convex(c, fine));
    let mut within = vec![p.clone()];
    let mut cur = poly(&p);
    let k = c.int(1, 4);
    c.note(|| format!("start {:?}", p));
    for _ in 0..k {
        let q = some!(gen_convex(c, fine));
        p = clip_by(&p, &q);
        within.push(q.clone());
        cur = if c.bool() { cur.intersect_polygon(&poly(&q)) } else { poly(&q).intersect_polygon(&cur) };
        c.note(|| format!("with {:?}", q));
        let scale = within.iter().map(|w| diameter2(w) + norm2(w[0])).fold(1.0, f64::max);
        same_polygon(c, &cur, &p, &within, None, scale)?;
        let g = verts(&cur);
        if g.len() < 3 || !healthy(&g, 1e-3) {
            return Ok(());
        }
        c.nontrivial();
    }
    Ok(())
}

/// [t1, t2] is the part of the segment with phi <= 0, for a convex phi with values in units of distance
fn part(got: Option<[f64; 2]>, phi: &dyn Fn(f64) -> f64, len: f64, scale: f64) -> Res {
    let tol = 1e-8 * scale;
    // minimise the convex function on [0, 1]
    let (mut lo, mut hi) = (0.0, 1.0);
    for _ in 0..200 {
        let (a, b) = (lo + (hi - lo) / 3.0, hi - (hi - lo) / 3.0);
        if phi(a) <= phi(b) {
            hi = b
        } else {
            lo = a
        }
    }
    let best = [0.0, 1.0, lo, hi].into_iter().fold(0.0, |m: f64, t| if phi(t) < phi(m) { t } else { m });
    let min = phi(best);
    match got {
        None => ensure!(min >= -tol, "no common part, but the point at {} is inside (by {:e})", best, -min),
        Some([a, b]) => {
            ensure!(min <= tol, "common part [{}, {}], but all points are outside (by at least {:e})", a, b, min);
            ensure!(0.0 <= a && a <= b && b <= 1.0, "parameters [{}, {}]", a, b);
            for t in [a, b] {
                ensure!(phi(t) <= tol, "the point at {} is outside by {:e}", t, phi(t));
            }
            // nothing is missing: step over the ends by something that is clearly visible
            if len > 1e-3 && min < -1e-3 * scale {
                let step = 1e-3 * scale / len;
                if a - step >= 0.0 {
                    ensure!(phi(a - step) >= -tol, "the point at {} is inside, but before the start {}", a - step, a);
                }
                if b + step <= 1.0 {
                    ensure!(phi(b + step) >= -tol, "the point at {} is inside, but after the end {}", b + step, b);
                }
                // ends that are not ends of the segment lie on the boundary
                ensure!(a <= 1e-6 || phi(a) >= -1e-6 * scale, "start {} is inside", a);
                ensure!(b >= 1.0 - 1e-6 || phi(b) >= -1e-6 * scale, "end {} is inside", b);
            }
        }
    }
    Ok(())
}

/// Parameters of the ends of a part of a segment; checks that they lie on it
fn params(s: (P2, P2), part: Option<LineSegment2d<f64>>, scale: f64) -> Result<Option<[f64; 2]>, Stop> {
    Ok(match part {
        None => None,
        Some(r) => {
            let d = sub2(s.1, s.0);
            let mut t = [0.0; 2];
            for (k, e) in [r.start(), r.end()].into_iter().enumerate() {
                ensure!(dist_seg2(s.0, s.1, p2(e)) <= 1e-9 * scale, "{:?} is not on the segment", e);
                t[k] = (dot2(sub2(p2(e), s.0), d) / dot2(d, d)).clamp(0.0, 1.0);
            }
            Some(t)
        }
    })
}

fn gen_segment(c: &mut Case, p: &[P2], fine: bool) -> Option<(P2, P2)> {
    let end = |c: &mut Case| -> P2 {
        match c.int(0, 3) {
            0 => *c.pick(p),
            1 => {
                let i = c.int(0, p.len() - 1);
                lerp2(p[i], p[(i + 1) % p.len()], *c.pick(&[0.5, 0.25, -0.5, 1.5]))
            }
            _ => point2(c, fine),
        }
    };
    let (a, b) = (end(c), end(c));
    if norm2(sub2(a, b)) < 1e-3 {
        None
    } else {
        Some((a, b))
    }
}

fn clip_segment(c: &mut Case) -> Res {
    choose_unit(c);
    let fine = c.bool();
    let p = some!(gen_convex(c, fine));
    let s = some!(gen_segment(c, &p, fine));
    let h = some!(gen_half(c, &p, fine));
    let scale = diameter2(&p).max(1.0) + norm2(p[0]) + norm2(s.0);
    c.note(|| format!("segment {:?}, polygon {:?}, half-plane at {:?} with normal {:?}", s, p, h.0, h.1));
    let l = seg(s.0, s.1);
    let len = norm2(sub2(s.1, s.0));
    let at = |t: f64| lerp2(s.0, s.1, t);
    // half-plane
    let hp = half_plane(h);
    let phi = |t: f64| dot2(h.1, sub2(at(t), h.0));
    let got = l.intersect_half_plane_parametric(&hp);
    part(got, &phi, len, scale)?;
    let r = params(s, l.intersect_half_plane(&hp), scale)?;
    ensure!(r.is_some() == got.is_some(), "{:?} and {:?}", r, got);
    if let (Some(r), Some(g)) = (r, got) {
        ensure!((r[0] - g[0]).abs() <= 1e-7 * scale && (r[1] - g[1]).abs() <= 1e-7 * scale, "{:?} and {:?}", r, g);
    }
    // polygon
    let phi = |t: f64| excess(&p, at(t));
    let got = params(s, l.intersect_polygon(&poly(&p)), scale)?;
    part(got, &phi, len, scale)?;
    c.nontrivial_if(got.map(|g| g[1] - g[0] > 1e-6 && (g[0] > 0.0 || g[1] < 1.0)).unwrap_or(false));
    c.class_if(got.is_none(), "no common points");
    // the same as an intersection of polygons
    let as_poly = ConvexPolygon::from(l.clone());
    ensure!(as_poly.is_line_segment() && !as_poly.is_point() && as_poly.num_edges() == 2);
    for r in [as_poly.intersect_polygon(&poly(&p)), poly(&p).intersect_polygon(&as_poly)] {
        let v = verts(&r);
        let r = match v.len() {
            0 => None,
            2 => Some(seg(v[0], v[1])),
            _ => fail!("polygon with {} vertices", v.len()),
        };
        let r = params(s, r, scale)?;
        part(r, &phi, len, scale)?;
    }
    Ok(())
}

fn clip_disk(c: &mut Case) -> Res {
    choose_unit(c);
    let fine = c.bool();
    let m = point2(c, fine);
    let r = if c.chance(1, 8) { 0.0 } else if fine { c.f64(0.01, 4.0) } else { 0.5 * c.int(1, 8) as f64 };
    // segments in special position: tangents, chords through the centre, radial ones ending on the circle
    let t = c.f64(0.0, std::f64::consts::TAU);
    let (u, v) = ([t.cos(), t.sin()], [-t.sin(), t.cos()]);
    let at = |x: f64, y: f64| [m[0] + x * u[0] + y * v[0], m[1] + x * u[1] + y * v[1]];
    let s = match c.int(0, 4) {
        0 => (at(c.f64(-5.0, 5.0), r), at(c.f64(-5.0, 5.0), r)),
        1 => (at(c.f64(-5.0, 5.0), 0.0), at(c.f64(-5.0, 5.0), 0.0)),
        2 => (at(r, 0.0), point2(c, fine)),
        _ => (point2(c, fine), point2(c, fine)),
    };
    let len = norm2(sub2(s.1, s.0));
    if len < 1e-3 {
        discard!("short");
    }
    let scale = 8.0;
    c.note(|| format!("segment {:?}, disk at {:?} with radius {:?}", s, m, r));
    let disk = Disk::from_center_and_radius(pt(m), r * unit());
    let l = seg(s.0, s.1);
    let phi = |t: f64| norm2(sub2(lerp2(s.0, s.1, t), m)) - r;
    let line = l.to_line();
    let d = dist_line(s, m);
    c.class_if((d - r).abs() < 1e-6, "tangent");
    // closer to tangency the chord is determined by rounding errors
    let tangent = (d - r).abs() < 1e-5;
    let got = l.intersect_disk_parametric(&disk);
    let min_dist = dist_seg2(s.0, s.1, m);
    c.class_if(got.is_none() && d < r, "beside the disk");
    if !tangent {
        part(got, &phi, len, scale)?;
        c.nontrivial_if(got.is_some());
    } else if min_dist > r + 1e-5 {
        ensure!(got.is_none(), "common part {:?} with a disk at distance {}", got, min_dist - r);
    } else if let Some(g) = got {
        ensure!(0.0 <= g[0] && g[0] <= g[1] && g[1] <= 1.0, "{:?}", g);
        ensure!(g.iter().all(|t| phi(*t).abs() < 1e-3), "{:?}", g);
    }
    let q = params(s, l.intersect_disk(&disk), scale)?;
    ensure!(q.is_some() == got.is_some(), "{:?} and {:?}", q, got);
    if let (Some(q), Some(g)) = (q, got) {
        ensure!((q[0] - g[0]).abs() <= 1e-6 && (q[1] - g[1]).abs() <= 1e-6, "{:?} and {:?}", q, g);
    }
    // the whole line
    let got = line.intersect_disk_parametric(&disk);
    let chord = line.intersect_disk(&disk);
    ensure!(got.is_some() == chord.is_some());
    if !tangent {
        ensure!(got.is_some() == (d < r), "line at distance {} from the centre, radius {}: {:?}", d, r, got);
    }
    if let (Some(g), Some(chord)) = (got, chord) {
        ensure!(g[0] <= g[1], "{:?}", g);
        let half = (r * r - d * d).max(0.0).sqrt();
        for (t, e) in [(g[0], chord.start()), (g[1], chord.end())] {
            ensure!(norm2(sub2(lerp2(s.0, s.1, t), p2(e))) <= 1e-9 * (1.0 + (t * len).abs()), "parameter {} and point {:?}", t, e);
            ensure!(tangent || (norm2(sub2(p2(e), m)) - r).abs() <= 1e-7 * scale * scale / len.min(1.0), "{:?} is not on the circle", e);
        }
        ensure!(tangent || (chord.length() / unit() - 2.0 * half).abs() <= 1e-6 * scale * scale / len.min(1.0), "chord of length {}, expected {}", chord.length() / unit(), 2.0 * half);
    }
    Ok(())
}

fn dist_line(s: (P2, P2), x: P2) -> f64 {
    let d = sub2(s.1, s.0);
    (cross2(d, sub2(x, s.0)) / norm2(d)).abs()
}

fn segments(c: &mut Case) -> Res {
    choose_unit(c);
    let fine = c.bool();
    let a = point2(c, fine);
    let b = point2(c, fine);
    // the ends of the other segment are often on the line of the first
    let end = |c: &mut Case| if c.chance(1, 3) { lerp2(a, b, *c.pick(&[0.0, 1.0, 0.5, 0.25, -0.25, 1.5]) + if fine && c.bool() { c.tiny() } else { 0.0 }) } else { point2(c, fine) };
    let p = end(c);
    let q = if c.chance(1, 6) { [p[0] + b[0] - a[0], p[1] + b[1] - a[1]] } else { end(c) };
    c.note(|| format!("segments {:?} - {:?} and {:?} - {:?}", a, b, p, q));
    let (s1, s2) = (seg(a, b), seg(p, q));
    let (d, e) = (sub2(b, a), sub2(q, p));
    let (ld, le) = (norm2(d), norm2(e));
    // basic quantities
    ensure!((s1.length() / unit() - ld).abs() <= 1e-12 * (1.0 + ld));
    ensure!(norm2(sub2(p2(&s1.midpoint()), lerp2(a, b, 0.5))) <= 1e-12 * 8.0);
    ensure_eq!((p2(s1.reverse().start()), p2(s1.reverse().end())), (b, a));
    ensure!(norm2(sub2([s1.normal_dir().x / unit(), s1.normal_dir().y / unit()], [d[1], -d[0]])) <= 1e-12 * 8.0, "normal {:?}", s1.normal_dir());
    ensure!(norm2(sub2([s1.tangent_dir().x / unit(), s1.tangent_dir().y / unit()], d)) <= 1e-12 * 8.0);
    if ld < 1e-3 || le < 1e-3 {
        c.class("short");
        return Ok(());
    }
    let det = cross2(d, e);
    let (l1, l2) = (s1.to_line(), s2.to_line());
    if !fine && det == 0.0 {
        // products of small multiples of 1/8 are exact
        c.class("parallel");
        ensure!(l1.intersect(&l2).is_none() && l1.intersect_line_parametric(&l2).is_none(), "parallel lines intersect");
        if cross2(d, sub2(p, a)) != 0.0 {
            ensure!(s1.intersect_segment_parametric(&s2).is_none(), "parallel segments intersect");
        }
        return Ok(());
    }
    let sine = det.abs() / (ld * le);
    if sine < 1e-4 {
        c.class("nearly parallel");
        return Ok(());
    }
    c.nontrivial();
    let (t1, t2) = (cross2(sub2(p, a), e) / det, cross2(sub2(p, a), d) / det);
    let x = lerp2(a, b, t1);
    let tol = 1e-10 / sine * (1.0 + t1.abs().max(t2.abs()));
    let (g1, g2) = l1.intersect_line_parametric(&l2).ok_or("no intersection of lines")?;
    ensure!((g1 - t1).abs() <= tol / ld.min(1.0) && (g2 - t2).abs() <= tol / le.min(1.0), "parameters {:?}, expected {:?}", (g1, g2), (t1, t2));
    let y = l1.intersect(&l2).ok_or("no intersection of lines")?;
    ensure!(norm2(sub2(p2(&y), x)) <= tol * 8.0 / ld.min(1.0), "intersection {:?}, expected {:?}", y, x);
    let y = s1.intersect_line_parametric(&l2).ok_or("no intersection with the line")?;
    ensure!((y - t1).abs() <= tol / ld.min(1.0));
    let m = 1e-7 / sine;
    let out = |t: f64| (-t).max(t - 1.0);
    let worst = out(t1).max(out(t2));
    c.class(if worst.abs() <= m { "touching" } else if worst < 0.0 { "crossing" } else { "not crossing" });
    match s1.intersect_segment_parametric(&s2) {
        Some(t) => {
            ensure!(worst <= m, "segments intersect at {}, but the lines do at {} and {}", t, t1, t2);
            ensure!((t - t1).abs() <= tol / ld.min(1.0) && 0.0 <= t && t <= 1.0, "intersection at {}, expected {}", t, t1);
        }
        None => ensure!(worst >= -m, "segments do not intersect, but the lines do at {} and {}", t1, t2),
    }
    Ok(())
}

fn closest(c: &mut Case) -> Res {
    choose_unit(c);
    let fine = c.bool();
    let d = c.int(2, 3);
    let v = |c: &mut Case| -> V3 {
        let mut x = [0.0; 3];
        for k in 0..d {
            x[k] = if fine && c.chance(1, 3) { c.grid(8, 2) + c.tiny() } else if fine { c.f64(-4.0, 4.0) } else { c.grid(8, 2) };
        }
        x
    };
    let (a, b) = (v(c), v(c));
    let x = match c.int(0, 4) {
        0 => solid::add(a, solid::mul(solid::sub(b, a), *c.pick(&[0.0, 1.0, 0.5, -1.0, 2.0]))),
        _ => v(c),
    };
    c.note(|| format!("dimension {}, segment {:?} - {:?}, point {:?}", d, a, b, x));
    let e = solid::sub(b, a);
    let l2 = solid::dot(e, e);
    c.class_if(l2 == 0.0, "segment of length zero");
    if l2 > 0.0 && l2 < 1e-6 {
        discard!("short");
    }
    let free = if l2 == 0.0 { 0.0 } else { solid::dot(solid::sub(x, a), e) / l2 };
    let t = free.clamp(0.0, 1.0);
    c.nontrivial_if(l2 > 0.0);
    c.class(if free < 0.0 { "before" } else if free > 1.0 { "behind" } else { "beside" });
    let at = |t: f64| solid::add(a, solid::mul(e, t));
    let same = |p: &[f64], q: V3| (0..d).all(|k| (p[k] / unit() - q[k]).abs() <= 1e-9 * (1.0 + solid::norm(q)));
    macro_rules! go {
        ($P:expr, $Seg:ident) => {{
            let mk = $P;
            let s = $Seg::from_end_points(mk(a), mk(b));
            let g = s.closest_point_parametric(&mk(x));
            ensure!((g - t).abs() <= 1e-9 * (1.0 + free.abs()), "closest parameter {}, expected {}", g, t);
            ensure!(same(s.closest_point(&mk(x)).coords.as_slice(), at(t)), "closest point {:?}, expected {:?}", s.closest_point(&mk(x)), at(t));
            for u in [0.0, 0.25, 1.0, -2.0] {
                ensure!(same(s.point_from_parameter(u).coords.as_slice(), at(u)));
            }
            let line = s.to_line();
            let through = Line::from_point_through_point(mk(a), &mk(b));
            ensure!(through.point() == line.point() && through.dir() == line.dir() && *line.point() == mk(a), "line {:?} through the end points of {:?}", through, s);
            ensure!(same((through.point() + through.dir()).coords.as_slice(), b));
            if l2 > 0.0 {
                ensure!((0..d).all(|k| (through.tangent()[k] - e[k] / l2.sqrt()).abs() <= 1e-9), "tangent {:?} of the line through {:?}", through.tangent(), s);
            }
            ensure!((line.project_point_parametric(&mk(x)) - free).abs() <= 1e-9 * (1.0 + free.abs()));
            ensure!(same(line.project_point(&mk(x)).coords.as_slice(), at(free)), "projection {:?}, expected {:?}", line.project_point(&mk(x)), at(free));
        }};
    }
    if d == 2 {
        go!(|p: V3| pt([p[0], p[1]]), LineSegment2d)
    } else {
        go!(pt3, LineSegment3d);
        // closest point to a plane: the plane function is linear on the segment
        let (o, n) = (v(c), v(c));
        if solid::norm(n) < 1e-3 {
            return Ok(());
        }
        let o = if c.chance(1, 4) { a } else if c.chance(1, 4) { b } else { o };
        let n = if c.chance(1, 5) { solid::cross3(e, n) } else { n };
        if solid::norm(n) < 1e-3 {
            return Ok(());
        }
        let n = solid::unit(n);
        c.note(|| format!("plane at {:?} with normal {:?}", o, n));
        let plane = Plane::from_point_and_normal(pt3(o), Unit::new_normalize(Vector3::from(n)));
        let s = LineSegment3d::from_end_points(pt3(a), pt3(b));
        let phi = |t: f64| solid::dot(n, solid::sub(at(t), o));
        let (p0, p1) = (phi(0.0), phi(1.0));
        let want = if p0 * p1 <= 0.0 { 0.0 } else { p0.abs().min(p1.abs()) };
        let t = s.closest_point_to_plane_parametric(&plane);
        ensure!(0.0 <= t && t <= 1.0, "parameter {}", t);
        ensure!((phi(t).abs() - want).abs() <= 1e-9, "distance {} to the plane at the closest point (parameter {}), expected {}", phi(t).abs(), t, want);
        ensure!(same(s.closest_point_to_plane(&plane).coords.as_slice(), at(t)));
        if (p1 - p0).abs() > 1e-6 {
            let u = -p0 / (p1 - p0);
            let tol = 1e-9 * (1.0 + u.abs()) / (p1 - p0).abs().min(1.0);
            let g = s.to_line().intersect_plane_parametric(&plane).ok_or("the line does not meet the plane")?;
            ensure!((g - u).abs() <= tol, "the line meets the plane at {}, expected {}", g, u);
            match s.intersect_plane_parametric(&plane) {
                Some(g) => ensure!((g - u).abs() <= tol && 0.0 <= g && g <= 1.0, "the segment meets the plane at {}, expected {}", g, u),
                None => ensure!(u < tol || u > 1.0 - tol, "the segment does not meet the plane, expected at {}", u),
            }
        }
    }
    Ok(())
}

/// Edges, half-planes, triangles, conversions
fn parts(c: &mut Case) -> Res {
    choose_unit(c);
    let fine = c.bool();
    let p = some!(gen_convex(c, fine));
    c.note(|| format!("{:?}", p));
    c.nontrivial();
    let n = p.len();
    let g = poly(&p);
    ensure_eq!(verts(&g), p);
    ensure_eq!(g.edges().map(|(a, b)| (p2(a), p2(b))).collect::<Vec<_>>(), (0..n).map(|i| (p[i], p[(i + 1) % n])).collect::<Vec<_>>());
    let hs: Vec<_> = g.half_planes().collect();
    ensure_eq!(hs.len(), n);
    let x = point2(c, true);
    let e = excess(&p, x);
    let h = hs.iter().map(|h| h.signed_distance_to_point(&pt(x)) / unit()).fold(f64::NEG_INFINITY, f64::max);
    ensure!((e - h).abs() <= 1e-9, "signed distance {} to the half-planes, expected {}", h, e);
    if e.abs() > 1e-9 {
        ensure!(g.contains_point(&pt(x)) == (e < 0.0), "contains {:?}: {}", x, e >= 0.0);
    }
    // triangles: areas add up, and a point is in exactly one
    let check = |ts: Vec<Triangle2d<f64>>, count: usize, what: &str| -> Res {
        ensure!(ts.len() == count, "{}: {} triangles", what, ts.len());
        let ts: Vec<Vec<P2>> = ts.iter().map(|t| t.0.iter().map(p2).collect()).collect();
        ensure!(ts.iter().all(|t| area2(t) > 0.0), "{}: triangle of negative orientation", what);
        let sum: f64 = ts.iter().map(|t| area2(t)).sum();
        ensure!((sum - area2(&p)).abs() <= 1e-9 * (1.0 + sum), "{}: areas add up to {}", what, sum);
        if ts.iter().all(|t| dist_boundary(t, x) > 1e-9) {
            let k = ts.iter().filter(|t| excess(t, x) < 0.0).count();
            ensure!(k == (e < 0.0) as usize, "{}: {:?} is in {} triangles", what, x, k);
        }
        Ok(())
    };
    check(g.triangulate().collect(), n - 2, "triangulate")?;
    check(g.triangulate_into_vec(), n - 2, "triangulate_into_vec")?;
    let simple = SimplePolygon2d::from(g.clone());
    ensure_eq!(simple.num_vertices(), n);
    check(simple.assume_convex().triangulate(), n - 2, "Convex::triangulate")?;
    let w: Vec<f64> = c.vec(n, |c| c.f64(0.1, 1.0));
    let s: f64 = w.iter().sum();
    let m = [0, 1].map(|k| (0..n).map(|i| w[i] * p[i][k]).sum::<f64>() / s);
    check(simple.assume_convex().triangulate_at_point(&pt(m)), n, "triangulate_at_point")?;
    for few in [vec![], vec![p[0]], vec![p[0], p[1]]] {
        ensure!(poly(&few).triangulate_into_vec().is_empty(), "triangles of {:?}", few);
    }
    // triangles and quadrilaterals
    let t = [p[0], p[1], p[2]];
    ensure_eq!(verts(&ConvexPolygon::from(Triangle(t.map(pt)))), t.to_vec());
    if n > 3 {
        let q = [p[0], p[1], p[2], p[3]];
        ensure_eq!(ConvexPolygon::try_from(Quad2d(q.map(pt))).map(|r| verts(&r)), Ok(q.to_vec()));
        let e = Quad4d2Element::from_vertices(q.map(pt));
        ensure_eq!(ConvexPolygon::try_from(e).map(|r| verts(&r)), Ok(q.to_vec()), "quadrilateral element");
        ensure_eq!(ConvexPolygon::try_from(Quad9d2Element::from(&e)).map(|r| verts(&r)), Ok(q.to_vec()), "9-node element");
    }
    // a corner pushed into the triangle: concave, wherever the corner is
    let (u, v) = (c.f64(0.1, 0.4), c.f64(0.1, 0.4));
    let inner = [0, 1].map(|k| t[0][k] + u * (t[1][k] - t[0][k]) + v * (t[2][k] - t[0][k]));
    let mut q = [t[0], t[1], t[2], inner];
    let k = c.int(0, 3);
    q.rotate_left(k);
    let reversed = c.bool();
    if reversed {
        q.reverse();
    }
    ensure!(ConvexPolygon::try_from(Quad2d(q.map(pt))).is_err(), "the concave quadrilateral {:?} is accepted", q);
    let e = Quad4d2Element::from_vertices(q.map(pt));
    ensure!(ConvexPolygon::try_from(e).is_err(), "the concave quadrilateral element {:?} is accepted", q);
    ensure!(ConvexPolygon::try_from(Quad9d2Element::from(&e)).is_err(), "the concave 9-node element {:?} is accepted", q);
    Ok(())
}

/// Planar convex polygons in space, clipped by half spaces
fn in_space(c: &mut Case) -> Res {
    choose_unit(c);
    let fine = c.bool();
    let mut p = some!(gen_convex(c, fine));
    let rot = if c.chance(1, 3) {
        UnitQuaternion::identity()
    } else {
        UnitQuaternion::from_euler_angles(c.f64(-3.0, 3.0), c.f64(-1.5, 1.5), c.f64(-3.0, 3.0))
    };
    let iso = Isometry3::from_parts(Translation3::new(c.grid(4, 2), c.grid(4, 2), c.grid(4, 2)), rot);
    if c.bool() {
        p.reverse();
    }
    let in_units = Isometry3::from_parts(Translation3::from(iso.translation.vector * unit()), rot);
    let q = SimplePolygon2d::from_vertices(p.iter().map(|x| pt(*x)).collect()).apply_isometry(&in_units);
    let w: Vec<V3> = p
        .iter()
        .map(|x| {
            let y = iso.rotation * vector![x[0], x[1], 0.0] + iso.translation.vector;
            [y.x, y.y, y.z]
        })
        .collect();
    let same = |a: &Point3<f64>, b: V3| (0..3).all(|k| (p3(a)[k] - b[k]).abs() <= 1e-10);
    ensure!(q.num_vertices() == p.len() && q.vertices().iter().zip(&w).all(|(a, b)| same(a, *b)), "apply_isometry gives {:?}, expected {:?}", q, w);
    let av = iso.rotation * vector![0.0, 0.0, area2(&p)];
    let scale = 1.0 + area2(&p).abs() + diameter2(&p);
    let uu = unit() * unit();
    ensure!((q.area_vector() / uu - av).norm() <= 1e-9 * scale, "area vector {:?}, expected {:?}", q.area_vector() / uu, av);
    ensure!((q.area() / uu - area2(&p).abs()).abs() <= 1e-9 * scale);
    let n: V3 = match c.int(0, 3) {
        0 => *c.pick(&[[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0]]),
        1 => {
            // nearly or exactly parallel planes are only decided by rounding
            let d = solid::sub(w[1], w[0]);
            solid::cross3(d, [av.x, av.y, av.z])
        }
        _ => [c.f64(-1.0, 1.0), c.f64(-1.0, 1.0), c.f64(-1.0, 1.0)],
    };
    if solid::norm(n) < 1e-3 {
        discard!("normal");
    }
    let n = solid::unit(n);
    let tilt = solid::norm(solid::cross3(n, solid::unit([av.x, av.y, av.z])));
    let o = match c.int(0, 2) {
        0 => *c.pick(&w),
        1 => solid::mul(solid::add(w[0], w[w.len() / 2]), 0.5),
        _ => [c.f64(-4.0, 4.0), c.f64(-4.0, 4.0), c.f64(-4.0, 4.0)],
    };
    c.note(|| format!("polygon {:?}, half space at {:?} with normal {:?}", w, o, n));
    let half = HalfSpace::from_point_and_normal(pt3(o), Unit::new_normalize(Vector3::from(n)));
    for (half, sign) in [(half.clone(), 1.0), (half.complement(), -1.0)] {
        let r = q.intersect_half_space(&half);
        let n = solid::mul(n, sign);
        let side = |x: V3| solid::dot(n, solid::sub(x, o));
        if tilt < 1e-3 {
            // all on one side, or the decision is not clear
            let far = w.iter().all(|x| side(*x).abs() > 1e-6);
            if far && (w.iter().all(|x| side(*x) > 0.0) || w.iter().all(|x| side(*x) < 0.0)) {
                ensure!(r.num_vertices() == if side(w[0]) > 0.0 { 0 } else { w.len() }, "{} vertices", r.num_vertices());
                c.class("parallel");
            }
            continue;
        }
        // clip in the plane of the polygon: its coordinates are those before the isometry
        let nl = iso.rotation.inverse() * Vector3::from(n);
        let ol = iso.inverse() * Point3::from(o);
        // n·(x - o) with x = (x0, x1, 0)
        let n2 = [nl.x, nl.y];
        let s = (nl.x * ol.x + nl.y * ol.y + nl.z * ol.z) / dot2(n2, n2);
        let want = clip2(&p, [n2[0] * s, n2[1] * s], n2);
        c.nontrivial_if(area2(&want).abs() > 1e-6 && area2(&want).abs() < area2(&p).abs() - 1e-6);
        let tol = 1e-8 / tilt;
        ensure!((r.area() / uu - area2(&want).abs()).abs() <= tol * scale, "area {}, expected {}", r.area() / uu, area2(&want).abs());
        if area2(&want).abs() > 1e-3 {
            let (g, e) = (r.area_vector() / uu, av * (area2(&want) / area2(&p)));
            ensure!((g - e).norm() <= tol * scale, "area vector {:?}, expected {:?}", g, e);
        }
        for v in r.vertices() {
            let v = p3(v);
            ensure!(side(v) <= tol, "vertex {:?} is outside of the half space", v);
            let l = iso.inverse() * Point3::from(v);
            let mut ccw = p.clone();
            if area2(&ccw) < 0.0 {
                ccw.reverse();
            }
            ensure!(l.z.abs() <= 1e-9 && excess(&ccw, [l.x, l.y]) <= tol, "vertex {:?} is outside of the polygon", v);
        }
    }
    Ok(())
}

/// Polygons with many vertices
fn huge(c: &mut Case) -> Res {
    c.boost = 1;
    match c.int(0, 5) {
        0 => clip_half(c),
        1 => clip_polygon(c),
        2 => clip_chain(c),
        3 => clip_segment(c),
        4 => parts(c),
        _ => in_space(c),
    }
}

fn main() {
    pbt::main(Property {
        id: "C23",
        rule: "the operands meet in a set that is neither empty nor all of one of them, or lines that are not parallel; for queries, a segment of positive length; huge: the same with up to 150 vertices",
        assumptions: &[
            "operands are strictly convex polygons with visible area (or empty), segments longer than 0.001; decisions closer to a tie than rounding can resolve are not judged",
            "collinear segments are outside the domain of intersect_segment_parametric",
        ],
        clauses: vec![
            clause("polygon-half-plane", 1_700_000, 17_000_000, clip_half),
            clause("polygon-polygon", 1_100_000, 12_000_000, clip_polygon),
            clause("chain", 320000, 6400000, clip_chain),
            clause("segment", 600000, 12000000, clip_segment),
            clause("disk", 2_100_000, 21_000_000, clip_disk),
            clause("segments", 4_000_000, 40_000_000, segments),
            clause("closest", 4_000_000, 40_000_000, closest),
            clause("parts", 1_400_000, 14_000_000, parts),
            clause("in-space", 2_800_000, 28_000_000, in_space),
            clause("huge", 120000, 1200000, huge),
        ],
    })
}
