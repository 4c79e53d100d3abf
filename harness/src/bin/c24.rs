//! C24: tetrahedra, hexahedra, planar faces in space, half-spaces.
use fenris::geometry::util::{compute_orthonormal_vectors_3d, slices_are_equal_shift_invariant};
use fenris::geometry::*;
use fenris::nalgebra::{Point3, Unit, Vector3};
use pbt::solid::*;
use pbt::*;

fn pt(x: V3) -> Point3<f64> {
    Point3::from(x)
}
fn p3(p: &Point3<f64>) -> V3 {
    [p.x, p.y, p.z]
}
fn vec3(p: Vector3<f64>) -> V3 {
    [p.x, p.y, p.z]
}

/// Distance to a planar convex polygon: to its plane over the interior, else to its edges
fn dist_polygon(f: &[V3], p: V3) -> f64 {
    let m = unit(area_vector(f));
    let n = f.len();
    let mut best = f64::INFINITY;
    let mut inside = true;
    for i in 0..n {
        let (a, b) = (f[i], f[(i + 1) % n]);
        let (e, q) = (sub(b, a), sub(p, a));
        inside &= dot(cross3(m, e), q) >= 0.0;
        let t = (dot(e, q) / dot(e, e)).clamp(0.0, 1.0);
        best = best.min(norm(sub(q, mul(e, t))));
    }
    if inside {
        best = best.min(dot(m, sub(p, f[0])).abs());
    }
    best
}

fn area_vector(f: &[V3]) -> V3 {
    let mut a = [0.0; 3];
    for i in 1..f.len() - 1 {
        a = add(a, mul(cross3(sub(f[i], f[0]), sub(f[i + 1], f[0])), 0.5));
    }
    a
}

/// An affine map with positive determinant and bounded condition: x -> m x + t
fn gen_map(c: &mut Case) -> Option<([V3; 3], V3)> {
    let s = if c.chance(1, 3) { c.magnitude(-20.0, 20.0) } else { c.magnitude(-2.0, 2.0) };
    let m: [V3; 3] = match c.int(0, 3) {
        0 => [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
        1 => {
            let mut m = [[0.0; 3]; 3];
            for k in 0..3 {
                m[k][k] = c.f64(0.1, 2.0);
            }
            m
        }
        2 => [0; 3].map(|_| [0; 3].map(|_| c.grid(4, 2))),
        _ => [0; 3].map(|_| [0; 3].map(|_| c.f64(-1.0, 1.0))),
    };
    let d = dot(m[0], cross3(m[1], m[2]));
    let size = norm(m[0]) * norm(m[1]) * norm(m[2]);
    if d.abs() < 1e-2 * size || size < 1e-3 {
        return None;
    }
    let mut m = m;
    if d < 0.0 {
        m.swap(0, 1);
    }
    let t = if c.bool() { [0.0; 3] } else { [c.f64(-3.0, 3.0), c.f64(-3.0, 3.0), c.f64(-3.0, 3.0)] };
    Some((m.map(|r| mul(r, s)), mul(t, s)))
}

fn apply(m: &([V3; 3], V3), x: V3) -> V3 {
    add(m.1, [dot(m.0[0], x), dot(m.0[1], x), dot(m.0[2], x)])
}

fn det(m: &[V3; 3]) -> f64 {
    dot(m[0], cross3(m[1], m[2]))
}

const TET_FACES: [&[usize]; 4] = [&[0, 2, 1], &[0, 1, 3], &[1, 2, 3], &[0, 3, 2]];
const HEX_FACES: [&[usize]; 6] = [&[0, 3, 2, 1], &[4, 5, 6, 7], &[0, 1, 5, 4], &[1, 2, 6, 5], &[2, 3, 7, 6], &[3, 0, 4, 7]];

/// Corners in the order of the library and outward faces; exact volume
fn gen_solid(c: &mut Case) -> Option<(Vec<V3>, Vec<Vec<V3>>, f64)> {
    let map = gen_map(c)?;
    let (corners, faces, vol): (Vec<V3>, Vec<&[usize]>, f64) = if c.bool() {
        c.class("tetrahedron");
        (vec![[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], TET_FACES.to_vec(), 1.0 / 6.0)
    } else {
        c.class("hexahedron");
        // a frustum: the top is a scaled and moved copy of the bottom
        let (s, dx, dy) = if c.bool() { (1.0, 0.0, 0.0) } else { (c.f64(0.3, 2.0), c.f64(-1.0, 1.0), c.f64(-1.0, 1.0)) };
        let base = [[-1.0, -1.0], [1.0, -1.0], [1.0, 1.0], [-1.0, 1.0]];
        let mut v: Vec<V3> = base.iter().map(|b| [b[0], b[1], -1.0]).collect();
        v.extend(base.iter().map(|b| [s * b[0] + dx, s * b[1] + dy, 1.0]));
        // height 2, areas 4 and 4 s^2
        (v, HEX_FACES.to_vec(), 2.0 / 3.0 * (4.0 + 4.0 * s + 4.0 * s * s))
    };
    let v: Vec<V3> = corners.iter().map(|x| apply(&map, *x)).collect();
    // any start of the numbering that keeps the orientation
    let v = if v.len() == 4 {
        let p = c.pick(&[[0, 1, 2, 3], [1, 2, 0, 3], [2, 0, 1, 3], [3, 2, 1, 0], [1, 0, 3, 2]]).clone();
        p.iter().map(|i| v[*i]).collect()
    } else {
        let p = c.pick(&[[0, 1, 2, 3, 4, 5, 6, 7], [1, 2, 3, 0, 5, 6, 7, 4], [3, 2, 6, 7, 0, 1, 5, 4], [4, 7, 6, 5, 0, 3, 2, 1]]).clone();
        p.iter().map(|i| v[*i]).collect::<Vec<_>>()
    };
    let f = faces.iter().map(|f| f.iter().map(|i| v[*i]).collect()).collect();
    Some((v, f, vol * det(&map.0)))
}

fn diam(v: &[V3]) -> f64 {
    v.iter().flat_map(|a| v.iter().map(move |b| norm(sub(*a, *b)))).fold(0.0, f64::max)
}

fn gen_query(c: &mut Case, v: &[V3], faces: &[Vec<V3>]) -> V3 {
    let centre = mul(v.iter().fold([0.0; 3], |s, x| add(s, *x)), 1.0 / v.len() as f64);
    let d = diam(v);
    match c.int(0, 6) {
        0 => {
            // anywhere inside
            let w: Vec<f64> = v.iter().map(|_| c.unit()).collect();
            let s: f64 = w.iter().sum::<f64>() + 1e-9;
            v.iter().zip(&w).fold([0.0; 3], |a, (x, w)| add(a, mul(*x, w / s)))
        }
        1 => centre,
        2 => {
            // beyond a corner, an edge or a face
            let f = c.pick(faces).clone();
            let k = c.int(0, f.len() - 1);
            let foot = match c.int(0, 2) {
                0 => f[k],
                1 => add(f[k], mul(sub(f[(k + 1) % f.len()], f[k]), c.unit())),
                _ => mul(f.iter().fold([0.0; 3], |s, x| add(s, *x)), 1.0 / f.len() as f64),
            };
            add(foot, mul(sub(foot, centre), c.f64(-1.5, 3.0)))
        }
        3 => {
            // off a face
            let f = c.pick(faces).clone();
            let w: Vec<f64> = f.iter().map(|_| c.unit()).collect();
            let s: f64 = w.iter().sum::<f64>() + 1e-9;
            let foot = f.iter().zip(&w).fold([0.0; 3], |a, (x, w)| add(a, mul(*x, w / s)));
            let e = if c.bool() { -10.0 } else { -4.0 };
            let h = d * c.magnitude(e, 1.0) * if c.bool() { 1.0 } else { -1.0 };
            add(foot, mul(unit(area_vector(&f)), h))
        }
        4 => add(centre, mul([c.f64(-1.0, 1.0), c.f64(-1.0, 1.0), c.f64(-1.0, 1.0)], 100.0 * d)),
        _ => add(centre, mul([c.f64(-1.0, 1.0), c.f64(-1.0, 1.0), c.f64(-1.0, 1.0)], d)),
    }
}

/// Everything that is common to all polyhedra
fn check_polyhedron<'a, P: ConvexPolyhedron<'a, f64>>(s: &'a P, faces: &[Vec<V3>], vol: f64, x: V3, scale: f64) -> Res {
    let d = diam(&faces.concat());
    let tol = 1e-9 * scale;
    let v = s.compute_volume();
    ensure!((v - vol).abs() <= 1e-9 * (scale / d) * d * d * d, "volume {}, expected {}", v, vol);
    let side: f64 = faces.iter().map(|f| dot(unit(area_vector(f)), sub(x, f[0]))).fold(f64::NEG_INFINITY, f64::max);
    let dist = faces.iter().map(|f| dist_polygon(f, x)).fold(f64::INFINITY, f64::min);
    let clear = side.abs() > tol;
    if clear {
        ensure!(s.contains_point(&pt(x)) == (side < 0.0), "contains the point: {}", side >= 0.0);
    }
    let r = s.compute_signed_distance(&pt(x));
    ensure!((r.signed_distance.abs() - dist).abs() <= tol, "distance {}, expected {}", r.signed_distance, dist);
    ensure!(!clear || (r.signed_distance < 0.0) == (side < 0.0), "signed distance {}, but inside is {}", r.signed_distance, side < 0.0);
    ensure!((norm(sub(p3(&r.point), x)) - dist).abs() <= tol, "the closest point {:?} is at distance {}, expected {}", r.point, norm(sub(p3(&r.point), x)), dist);
    let on = faces.iter().map(|f| dist_polygon(f, p3(&r.point))).fold(f64::INFINITY, f64::min);
    ensure!(on <= tol, "the closest point {:?} is not on the surface", r.point);
    ensure_eq!(s.num_faces(), faces.len());
    ensure!(r.feature_id < faces.len(), "feature {}", r.feature_id);
    for i in 0..faces.len() + 2 {
        let f = s.get_face(i);
        ensure!(f.is_some() == (i < faces.len()), "face {} exists: {}", i, f.is_some());
        let f = match f {
            Some(f) => f,
            None => continue,
        };
        let g: Vec<V3> = (0..f.num_vertices()).map(|k| p3(&f.get_vertex(k).expect("vertex"))).collect();
        // the faces are those of the solid, all oriented alike: inwards
        let mut h = g.clone();
        h.reverse();
        ensure!(faces.iter().any(|f| slices_are_equal_shift_invariant(f, &h, |a, b| a == b)), "face {} is {:?}", i, g);
        if i == r.feature_id {
            ensure!(dist_polygon(&g, p3(&r.point)) <= tol, "the closest point is not on face {}", i);
        }
        // the half-space of every face contains the solid
        let half = f.compute_half_space().ok_or("no half-space")?;
        for y in faces.concat() {
            ensure!(half.signed_distance_to_point(&pt(y)) <= tol, "the half-space of face {} does not contain the corner {:?}", i, y);
        }
    }
    Ok(())
}

/// The reference solids have the corners of the reference elements
fn check_reference(tet: bool) -> Res {
    let v: Vec<V3> = if tet { vec![[-1.0, -1.0, -1.0], [1.0, -1.0, -1.0], [-1.0, 1.0, -1.0], [-1.0, -1.0, 1.0]] } else { pbt::elems::Kind::Hex8.ref_nodes().iter().map(|x| [x[0], x[1], x[2]]).collect() };
    if tet {
        let t = Tetrahedron::from_vertices([0, 1, 2, 3].map(|i| pt(v[i])));
        ensure!(Tetrahedron::reference() == t, "reference tetrahedron {:?}", Tetrahedron::<f64>::reference());
    } else {
        let h = Hexahedron::from_vertices([0, 1, 2, 3, 4, 5, 6, 7].map(|i| pt(v[i])));
        ensure!(Hexahedron::reference() == h, "reference hexahedron {:?}", Hexahedron::<f64>::reference());
    }
    Ok(())
}

fn solids(c: &mut Case) -> Res {
    let (v, faces, vol) = match gen_solid(c) {
        Some(s) => s,
        None => discard!("degenerate"),
    };
    let x = gen_query(c, &v, &faces);
    c.note(|| format!("corners {:?}, point {:?}", v, x));
    c.nontrivial();
    let scale = diam(&v) + norm(v[0]) + norm(sub(x, v[0]));
    let side: f64 = faces.iter().map(|f| dot(unit(area_vector(f)), sub(x, f[0]))).fold(f64::NEG_INFINITY, f64::max);
    let dist = faces.iter().map(|f| dist_polygon(f, x)).fold(f64::INFINITY, f64::min);
    c.class(if side < 0.0 { "inside" } else { "outside" });
    check_reference(v.len() == 4)?;
    let outside = if side < 0.0 { 0.0 } else { dist };
    let (d, bb) = if v.len() == 4 {
        let t = Tetrahedron::from_vertices([0, 1, 2, 3].map(|i| pt(v[i])));
        check_polyhedron(&t, &faces, vol, x, scale)?;
        (t.distance(&pt(x)), t.bounding_box())
    } else {
        let h = Hexahedron::from_vertices([0, 1, 2, 3, 4, 5, 6, 7].map(|i| pt(v[i])));
        check_polyhedron(&h, &faces, vol, x, scale)?;
        let r = h.query_signed_distance(&pt(x)).ok_or("no signed distance")?;
        ensure!((r.signed_distance.abs() - dist).abs() <= 1e-9 * scale, "query_signed_distance gives {}, expected {}", r.signed_distance, dist);
        ensure!(side.abs() <= 1e-9 * scale || (r.signed_distance < 0.0) == (side < 0.0));
        (h.distance(&pt(x)), h.bounding_box())
    };
    ensure!((d - outside).abs() <= 1e-9 * scale, "distance {}, expected {}", d, outside);
    for k in 0..3 {
        let (lo, hi) = v.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), x| (l.min(x[k]), h.max(x[k])));
        ensure!(bb.min()[k] == lo && bb.max()[k] == hi, "bounding box {:?}", bb);
    }
    Ok(())
}

fn check_face<'a, F: ConvexPolygon3d<'a, f64>>(f: &F, w: &[V3], x: V3, scale: f64) -> Res {
    // slivers: their normal is ill-conditioned
    let sliver = diam(w).powi(2) / norm(area_vector(w));
    if !(sliver < 1e6) {
        discard!("degenerate");
    }
    let tol = (1e-9 + 1e-13 * sliver * sliver) * scale;
    let n = w.len();
    ensure_eq!(f.num_vertices(), n);
    ensure_eq!((0..n + 2).map(|i| f.get_vertex(i).map(|p| p3(&p))).collect::<Vec<_>>(), w.iter().map(|x| Some(*x)).chain([None, None]).collect::<Vec<_>>());
    let a = area_vector(w);
    let m = unit(a);
    let d = diam(w);
    ensure!(norm(sub(vec3(f.compute_area_vector()), a)) <= 1e-9 * scale * d, "area vector {:?}, expected {:?}", f.compute_area_vector(), a);
    let nt = (1e-7 + 1e-13 * sliver * sliver) * scale / d;
    ensure!(norm(sub(vec3(f.compute_normal()), m)) <= nt, "normal {:?}, expected {:?}", f.compute_normal(), m);
    let p = f.compute_plane().ok_or("no plane")?;
    ensure!(norm(sub(vec3(p.normal().into_inner()), m)) <= nt, "plane normal {:?}, expected {:?}", p.normal(), m);
    ensure!(dot(m, sub(p3(p.point()), w[0])).abs() <= tol, "point of the plane {:?}", p.point());
    let h = f.compute_half_space().ok_or("no half-space")?;
    ensure!(norm(add(vec3(*h.normal()), m)) <= nt, "half-space normal {:?}, expected {:?}", h.normal(), mul(m, -1.0));
    ensure!(dot(m, sub(p3(h.point()), w[0])).abs() <= tol, "point of the half-space {:?}", h.point());
    let dist = dist_polygon(w, x);
    let r = f.closest_point(&pt(x));
    ensure!((r.distance - dist).abs() <= tol, "distance {}, expected {}", r.distance, dist);
    ensure!((norm(sub(p3(&r.closest_point), x)) - dist).abs() <= tol, "closest point {:?} at distance {}, expected {}", r.closest_point, norm(sub(p3(&r.closest_point), x)), dist);
    ensure!(dist_polygon(w, p3(&r.closest_point)) <= tol, "closest point {:?} is not on the face", r.closest_point);
    Ok(())
}

fn faces(c: &mut Case) -> Res {
    use fenris::geometry::polymesh::PolyMesh3d;
    use fenris_nested_vec::NestedVec;
    let fine = c.bool();
    let p = match pbt::planar::gen_convex(c, fine) {
        Some(p) => p,
        None => discard!("degenerate"),
    };
    let map = match gen_map(c) {
        Some(m) => m,
        None => discard!("degenerate"),
    };
    let mut w: Vec<V3> = p.iter().map(|x| apply(&map, [x[0], x[1], 0.5])).collect();
    // straight corners, as they occur after splitting edges
    if c.chance(1, 4) {
        let k = c.int(0, w.len() - 1);
        let m = mul(add(w[k], w[(k + 1) % w.len()]), 0.5);
        w.insert(k + 1, m);
        c.class("straight corner");
    }
    if c.bool() {
        w.reverse();
    }
    let x = {
        let flat = vec![w.clone()];
        gen_query(c, &w, &flat)
    };
    c.note(|| format!("face {:?}, point {:?}", w, x));
    c.nontrivial();
    let scale = diam(&w) + norm(w[0]) + norm(sub(x, w[0]));
    // a face of a polyhedral mesh, with other vertices in between
    let n = w.len();
    let perm = c.permutation(n + 2);
    let mut verts = vec![[9.0; 3]; n + 2];
    for (i, y) in w.iter().enumerate() {
        verts[perm[i]] = *y;
    }
    let mesh = PolyMesh3d::from_poly_data(
        verts.iter().map(|v| pt(*v)).collect(),
        NestedVec::from(&vec![vec![perm[n], perm[n + 1]], perm[..n].to_vec()]),
        NestedVec::from(&vec![vec![1]]),
    );
    check_face(&mesh.get_face(1).ok_or("no face")?, &w, x, scale)?;
    ensure!(mesh.get_face(2).is_none());
    if n == 3 {
        c.class("triangle");
        let t = Triangle([0, 1, 2].map(|i| pt(w[i])));
        check_face(&t, &w, x, scale)?;
        let dist = dist_polygon(&w, x);
        ensure!((t.distance(&pt(x)) - dist).abs() <= 1e-9 * scale, "distance {}, expected {}", t.distance(&pt(x)), dist);
        let a = area_vector(&w);
        let d = diam(&w);
        ensure!((t.area() - norm(a)).abs() <= 1e-9 * scale * d, "area {}", t.area());
        ensure!(norm(sub(vec3(t.normal_dir()), mul(a, 2.0))) <= 1e-9 * scale * d, "normal direction {:?}", t.normal_dir());
        ensure!(norm(sub(vec3(t.normal()), unit(a))) <= 1e-7 * scale / d, "normal {:?}", t.normal());
        let h = dot(unit(a), sub(x, w[0]));
        if h.abs() > 1e-9 * scale {
            ensure_eq!(t.point_orientation(&pt(x)), if h > 0.0 { OrientationTestResult::Positive } else { OrientationTestResult::Negative });
        }
        let m = mul(add(add(w[0], w[1]), w[2]), 1.0 / 3.0);
        ensure!(norm(sub(p3(&t.centroid()), m)) <= 1e-12 * scale);
        for k in 0..3 {
            let e = t.edge(k);
            ensure_eq!((p3(e.start()), p3(e.end())), (w[k], w[(k + 1) % 3]));
            ensure!(norm(sub(vec3(t.sides()[k]), sub(w[(k + 1) % 3], w[k]))) <= 1e-12 * scale);
        }
    }
    if n == 4 {
        c.class("quadrilateral");
        check_face(&Quad3d::from_vertices([0, 1, 2, 3].map(|i| pt(w[i]))), &w, x, scale)?;
    }
    Ok(())
}

fn planes(c: &mut Case) -> Res {
    let v = |c: &mut Case| -> V3 {
        if c.bool() { [c.grid(8, 2), c.grid(8, 2), c.grid(8, 2)] } else { [c.f64(-4.0, 4.0), c.f64(-4.0, 4.0), c.f64(-4.0, 4.0)] }
    };
    let (o, x) = (v(c), v(c));
    let mut n = v(c);
    if c.chance(1, 4) {
        n = [0.0, c.grid(1, 1), *c.pick(&[0.0, -0.0, 1e-9, -1.0])];
    }
    if norm(n) == 0.0 {
        n = [0.0, 0.0, if c.bool() { 1.0 } else { -1.0 }];
    }
    c.note(|| format!("plane at {:?} with normal {:?}, point {:?}", o, n, x));
    c.nontrivial();
    let u = Unit::new_normalize(Vector3::from(n));
    let n = unit(n);
    let d = dot(n, sub(x, o));
    let tol = 1e-12 * 20.0;
    let h = HalfSpace::from_point_and_normal(pt(o), u);
    ensure!((h.signed_distance_to_point(&pt(x)) - d).abs() <= tol, "signed distance {}, expected {}", h.signed_distance_to_point(&pt(x)), d);
    let k = h.complement();
    ensure!((k.signed_distance_to_point(&pt(x)) + d).abs() <= tol, "signed distance {} to the complement, expected {}", k.signed_distance_to_point(&pt(x)), -d);
    if d.abs() > tol {
        ensure!(h.contains_point(&pt(x)) == (d < 0.0) && k.contains_point(&pt(x)) == (d > 0.0));
    }
    ensure!(h.contains_point(&pt(o)) && k.contains_point(&pt(o)), "the boundary point is not contained");
    let p = h.plane();
    ensure!(p3(p.point()) == o && norm(sub(vec3(p.normal().into_inner()), n)) <= tol);
    ensure_eq!(HalfSpace::from_plane(&p), h);
    let q = p.flipped();
    ensure!(p3(q.point()) == o && norm(add(vec3(q.normal().into_inner()), n)) <= tol, "flipped plane {:?}", q);
    for t in [p.compute_tangent_vectors(), compute_orthonormal_vectors_3d(&u)] {
        let [a, b] = t.map(|t| vec3(t.into_inner()));
        ensure!((norm(a) - 1.0).abs() <= tol && (norm(b) - 1.0).abs() <= tol, "tangents {:?} and {:?}", a, b);
        ensure!(dot(a, b).abs() <= tol && dot(a, n).abs() <= tol && dot(b, n).abs() <= tol, "tangents {:?} and {:?} to {:?}", a, b, n);
    }
    // in the plane
    let h = HalfPlane::from_point_and_normal(fenris::nalgebra::Point2::new(o[0], o[1]), Unit::new_normalize(fenris::nalgebra::Vector2::new(n[0] + 0.5, n[1])));
    let m = h.normal().clone();
    let y = fenris::nalgebra::Point2::new(x[0], x[1]);
    let e = m.x * (x[0] - o[0]) + m.y * (x[1] - o[1]);
    ensure!((h.signed_distance_to_point(&y) - e).abs() <= tol);
    let s = h.surface();
    ensure!(s.dir().dot(&m).abs() <= tol && (s.dir().norm() - 1.0).abs() <= tol, "surface {:?}", s);
    ensure!(h.signed_distance_to_point(s.point()).abs() <= tol);
    Ok(())
}

/// Equality of cyclic sequences, against a direct definition
fn cyclic(c: &mut Case) -> Res {
    let n = c.int(0, 6);
    let x: Vec<usize> = c.vec(n, |c| c.int(0, 2));
    let mut y = x.clone();
    if n > 0 {
        let k = c.int(0, n - 1);
        y.rotate_left(k);
        if c.bool() {
            let i = c.int(0, n - 1);
            y[i] = c.int(0, 2);
        }
    }
    if c.chance(1, 6) {
        y.push(0);
    }
    c.note(|| format!("{:?} and {:?}", x, y));
    let want = x.len() == y.len() && (n == 0 || (0..n).any(|k| (0..n).all(|i| x[(i + k) % n] == y[i])));
    c.nontrivial_if(x.len() == y.len() && n > 1);
    ensure_eq!(slices_are_equal_shift_invariant(&x, &y, |a, b| a == b), want);
    Ok(())
}

/// Polygons with many vertices
fn huge(c: &mut Case) -> Res {
    c.boost = 1;
    faces(c)
}

fn main() {
    pbt::main(Property {
        id: "C24",
        rule: "every non-degenerate solid, face or plane; cyclic sequences of the same length; huge: the same with up to 150 vertices",
        assumptions: &["hexahedra have planar faces (affine images of frusta); shapes have bounded aspect ratio; signs are not judged within 1e-9 of the surface, relative to the size of the configuration"],
        clauses: vec![
            clause("solids", 4_000_000, 48_000_000, solids),
            clause("faces", 4_000_000, 48_000_000, faces),
            clause("planes", 4_000_000, 48_000_000, planes),
            clause("cyclic", 4_000_000, 40_000_000, cyclic),
            clause("huge", 200000, 2000000, huge),
        ],
    })
}
