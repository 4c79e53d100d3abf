//! Convex polytopes in space, clipped by planes: an independent oracle for volumes.

pub type V3 = [f64; 3];

pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn mul(a: V3, s: f64) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross3(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn norm(a: V3) -> f64 {
    dot(a, a).sqrt()
}
pub fn unit(a: V3) -> V3 {
    mul(a, 1.0 / norm(a))
}
pub fn v3(p: &[f64]) -> V3 {
    [p[0], p[1], p[2]]
}

/// A convex polytope given by its faces
#[derive(Clone, Debug)]
pub struct Solid {
    pub faces: Vec<Vec<V3>>,
}

impl Solid {
    /// From corners and faces, each a list of corners around the face in either direction
    pub fn new(corners: &[Vec<f64>], faces: &[Vec<usize>]) -> Solid {
        Solid { faces: faces.iter().map(|f| f.iter().map(|i| v3(&corners[*i])).collect()).collect() }
    }

    pub fn cuboid(lo: V3, hi: V3) -> Solid {
        let mut faces = vec![];
        for k in 0..3 {
            for x in [lo[k], hi[k]] {
                let (a, b) = ((k + 1) % 3, (k + 2) % 3);
                let mut f = vec![];
                for (p, q) in [(lo[a], lo[b]), (hi[a], lo[b]), (hi[a], hi[b]), (lo[a], hi[b])] {
                    let mut v = [0.0; 3];
                    v[k] = x;
                    v[a] = p;
                    v[b] = q;
                    f.push(v);
                }
                faces.push(f);
            }
        }
        Solid { faces }
    }

    pub fn centre(&self) -> Option<V3> {
        let n = self.faces.iter().map(|f| f.len()).sum::<usize>();
        if n == 0 {
            return None;
        }
        Some(mul(self.faces.iter().flatten().fold([0.0; 3], |s, x| add(s, *x)), 1.0 / n as f64))
    }

    pub fn volume(&self) -> f64 {
        let o = match self.centre() {
            Some(o) => o,
            None => return 0.0,
        };
        let mut vol = 0.0;
        for f in &self.faces {
            // cone over the face, whatever its orientation
            let mut area = [0.0; 3];
            for i in 1..f.len().max(2) - 1 {
                area = add(area, mul(cross3(sub(f[i], f[0]), sub(f[i + 1], f[0])), 0.5));
            }
            vol += dot(area, sub(f[0], o)).abs() / 3.0;
        }
        vol
    }

    /// Keeps the points with n·(x - p) <= 0
    pub fn clip(&self, p: V3, n: V3) -> Solid {
        // corners that are on the plane up to rounding count as inside, so that the cut is always convex
        let size = self.faces.iter().flatten().flatten().chain(&p).fold(0.0, |m: f64, x| m.max(x.abs()));
        let eps = 1e-10 * size * norm(n);
        let side = |x: &V3| match dot(n, sub(*x, p)) {
            s if s <= eps => s.min(0.0),
            s => s,
        };
        let mut faces = vec![];
        let mut cap: Vec<V3> = vec![];
        for f in &self.faces {
            let mut g = vec![];
            for i in 0..f.len() {
                let (a, b) = (f[i], f[(i + 1) % f.len()]);
                let (sa, sb) = (side(&a), side(&b));
                if sa <= 0.0 {
                    g.push(a);
                }
                if (sa <= 0.0) != (sb <= 0.0) {
                    let x = add(a, mul(sub(b, a), sa / (sa - sb)));
                    g.push(x);
                    cap.push(x);
                }
            }
            if g.len() >= 3 {
                faces.push(g);
            }
        }
        if cap.len() >= 3 {
            let mid = mul(cap.iter().fold([0.0; 3], |s, x| add(s, *x)), 1.0 / cap.len() as f64);
            let n = unit(n);
            let e = if n[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
            let t1 = unit(cross3(n, e));
            let t2 = cross3(n, t1);
            let mut v: Vec<(f64, V3)> = cap.iter().map(|x| (dot(sub(*x, mid), t2).atan2(dot(sub(*x, mid), t1)), *x)).collect();
            v.sort_by(|a, b| a.0.total_cmp(&b.0));
            faces.push(v.into_iter().map(|x| x.1).collect());
        }
        Solid { faces }
    }
}
