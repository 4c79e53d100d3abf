//! Planar polygons: generators and an independent oracle.
use crate::engine::Case;

pub type P2 = [f64; 2];

pub fn sub2(a: P2, b: P2) -> P2 {
    [a[0] - b[0], a[1] - b[1]]
}
pub fn dot2(a: P2, b: P2) -> f64 {
    a[0] * b[0] + a[1] * b[1]
}
pub fn cross2(a: P2, b: P2) -> f64 {
    a[0] * b[1] - a[1] * b[0]
}
pub fn norm2(a: P2) -> f64 {
    a[0].hypot(a[1])
}
pub fn lerp2(a: P2, b: P2, t: f64) -> P2 {
    [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
}

/// Signed area
pub fn area2(p: &[P2]) -> f64 {
    if p.is_empty() {
        return 0.0;
    }
    let o = p[0];
    (0..p.len()).map(|i| cross2(sub2(p[i], o), sub2(p[(i + 1) % p.len()], o)) / 2.0).sum()
}

/// Strictly convex hull, counter-clockwise
pub fn hull(pts: &[P2]) -> Vec<P2> {
    let mut p = pts.to_vec();
    p.sort_by(|a, b| a[0].total_cmp(&b[0]).then(a[1].total_cmp(&b[1])));
    p.dedup();
    if p.len() < 3 {
        return p;
    }
    let half = |it: &mut dyn Iterator<Item = &P2>| {
        let mut h: Vec<P2> = vec![];
        for x in it {
            while h.len() >= 2 && cross2(sub2(h[h.len() - 1], h[h.len() - 2]), sub2(*x, h[h.len() - 2])) <= 0.0 {
                h.pop();
            }
            h.push(*x);
        }
        h.pop();
        h
    };
    let mut lo = half(&mut p.iter());
    let up = half(&mut p.iter().rev());
    lo.extend(up);
    lo
}

/// Keeps n·(x - p) <= 0
pub fn clip2(poly: &[P2], p: P2, n: P2) -> Vec<P2> {
    let side = |x: P2| dot2(n, sub2(x, p));
    let mut out = vec![];
    for i in 0..poly.len() {
        let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
        let (sa, sb) = (side(a), side(b));
        if sa <= 0.0 {
            out.push(a);
        }
        if (sa <= 0.0) != (sb <= 0.0) {
            out.push(lerp2(a, b, sa / (sa - sb)));
        }
    }
    out
}

/// Outward unit normal of the edge a -> b of a counter-clockwise polygon
pub fn normal2(a: P2, b: P2) -> P2 {
    let d = sub2(b, a);
    let l = norm2(d);
    [d[1] / l, -d[0] / l]
}

pub fn clip_by(poly: &[P2], other: &[P2]) -> Vec<P2> {
    let mut out = poly.to_vec();
    for i in 0..other.len() {
        let (a, b) = (other[i], other[(i + 1) % other.len()]);
        out = clip2(&out, a, normal2(a, b));
    }
    out
}

/// Largest signed distance to the lines of the edges of a convex counter-clockwise polygon: negative inside, and at
/// most the distance outside
pub fn excess(poly: &[P2], x: P2) -> f64 {
    (0..poly.len()).map(|i| dot2(normal2(poly[i], poly[(i + 1) % poly.len()]), sub2(x, poly[i]))).fold(f64::NEG_INFINITY, f64::max)
}

pub fn dist_seg2(a: P2, b: P2, x: P2) -> f64 {
    let d = sub2(b, a);
    let l = dot2(d, d);
    let t = if l == 0.0 { 0.0 } else { (dot2(sub2(x, a), d) / l).clamp(0.0, 1.0) };
    norm2(sub2(x, lerp2(a, b, t)))
}

/// Distance to the boundary of any polygon
pub fn dist_boundary(p: &[P2], x: P2) -> f64 {
    (0..p.len()).map(|i| dist_seg2(p[i], p[(i + 1) % p.len()], x)).fold(f64::INFINITY, f64::min)
}

/// Even-odd rule; unspecified on the boundary
pub fn inside2(p: &[P2], x: P2) -> bool {
    let mut r = false;
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        if (a[1] > x[1]) != (b[1] > x[1]) && x[0] < a[0] + (x[1] - a[1]) / (b[1] - a[1]) * (b[0] - a[0]) {
            r = !r;
        }
    }
    r
}

/// Do the segments have a point in common, and how far are they from changing this (zero: touching)?
pub fn seg_gap(a: P2, b: P2, p: P2, q: P2) -> (bool, f64) {
    let d = sub2(b, a);
    let e = sub2(q, p);
    let (l, m) = (norm2(d), norm2(e));
    let ends = dist_seg2(a, b, p).min(dist_seg2(a, b, q)).min(dist_seg2(p, q, a)).min(dist_seg2(p, q, b));
    if l == 0.0 || m == 0.0 {
        return (ends == 0.0, ends);
    }
    let s = |x: P2| cross2(d, sub2(x, a)) / l;
    let t = |x: P2| cross2(e, sub2(x, p)) / m;
    // the signs are noise for segments on the same line
    let boxes = (0..2).all(|k| a[k].min(b[k]) <= p[k].max(q[k]) && p[k].min(q[k]) <= a[k].max(b[k]));
    let hit = boxes && (s(p) > 0.0) != (s(q) > 0.0) && (t(a) > 0.0) != (t(b) > 0.0);
    (hit, ends)
}

pub fn point2(c: &mut Case, fine: bool) -> P2 {
    if fine && c.chance(1, 4) {
        // almost in a special position
        [c.grid(8, 2) + c.tiny(), c.grid(8, 2) + if c.bool() { c.tiny() } else { 0.0 }]
    } else if fine {
        [c.f64(-4.0, 4.0), c.f64(-4.0, 4.0)]
    } else {
        [c.grid(8, 2), c.grid(8, 2)]
    }
}

/// A strictly convex counter-clockwise polygon with edges and thickness that are not tiny, starting anywhere
pub fn gen_convex(c: &mut Case, fine: bool) -> Option<Vec<P2>> {
    let many = c.boost > 0;
    let pts: Vec<P2> = if !many && c.bool() {
        let n = c.int(3, 8);
        c.vec(n, |c| point2(c, fine))
    } else {
        // on an ellipse
        let n = if many { 3 + c.size(150) } else { c.int(3, 10) };
        let off = c.unit();
        let (a, b) = (c.f64(0.3, 4.0), c.f64(0.3, 4.0));
        let m = point2(c, false);
        (0..n)
            .map(|i| {
                let t = std::f64::consts::TAU * (i as f64 + off) / n as f64;
                let p = [m[0] + a * t.cos(), m[1] + b * t.sin()];
                if fine || many { p } else { [(p[0] * 8.0).round() / 8.0, (p[1] * 8.0).round() / 8.0] }
            })
            .collect()
    };
    let mut h = hull(&pts);
    if h.len() < 3 || !healthy(&h, 1e-3) {
        return None;
    }
    let k = c.int(0, h.len() - 1);
    h.rotate_left(k);
    Some(h)
}

/// Edges longer than `m`, corners visibly convex and thickness larger than `m`
pub fn healthy(h: &[P2], m: f64) -> bool {
    let n = h.len();
    (0..n).all(|i| {
        let (a, b, d) = (h[i], h[(i + 1) % n], h[(i + 2) % n]);
        norm2(sub2(b, a)) > m && cross2(sub2(b, a), sub2(d, b)) > m * norm2(sub2(b, a)) * norm2(sub2(d, b))
    }) && area2(h) > m * n as f64
}

pub fn diameter2(p: &[P2]) -> f64 {
    p.iter().flat_map(|a| p.iter().map(move |b| norm2(sub2(*a, *b)))).fold(0.0, f64::max)
}
