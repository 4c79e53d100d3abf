//! Integration over reference domains, independent of the rules of the library: Gauss rules from Newton's method on
//! Legendre polynomials, collapsed onto simplices, prism and pyramid; and closed forms for powers of linear forms.
use crate::elems::Kind;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Shape {
    Seg,
    Tri,
    Quad,
    Tet,
    Hex,
    Prism,
    Pyramid,
}

pub const SHAPES: [Shape; 7] = [Shape::Seg, Shape::Tri, Shape::Quad, Shape::Tet, Shape::Hex, Shape::Prism, Shape::Pyramid];

/// (P_n(x), P_n'(x))
pub fn legendre(n: usize, x: f64) -> (f64, f64) {
    let (mut p0, mut p1) = (1.0, x);
    if n == 0 {
        return (1.0, 0.0);
    }
    for k in 1..n {
        let k = k as f64;
        let p2 = ((2.0 * k + 1.0) * x * p1 - k * p0) / (k + 1.0);
        p0 = p1;
        p1 = p2;
    }
    // derivative by summation, also at the end points
    let mut d = 0.0;
    let mut k = n as i64 - 1;
    while k >= 0 {
        d += (2 * k + 1) as f64 * legendre_value(k as usize, x);
        k -= 2;
    }
    (p1, d)
}

pub fn legendre_value(n: usize, x: f64) -> f64 {
    let (mut p0, mut p1) = (1.0, x);
    if n == 0 {
        return 1.0;
    }
    for k in 1..n {
        let k = k as f64;
        let p2 = ((2.0 * k + 1.0) * x * p1 - k * p0) / (k + 1.0);
        p0 = p1;
        p1 = p2;
    }
    p1
}

/// Gauss rule with n points on [-1, 1], in increasing order
pub fn gauss(n: usize) -> Vec<(f64, f64)> {
    let mut v: Vec<(f64, f64)> = (0..n)
        .map(|i| {
            let mut x = -((std::f64::consts::PI * (i as f64 + 0.75)) / (n as f64 + 0.5)).cos();
            for _ in 0..12 {
                let (p, d) = legendre(n, x);
                x -= p / d;
            }
            let d = legendre(n, x).1;
            (x, 2.0 / ((1.0 - x * x) * d * d))
        })
        .collect();
    v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    v
}

impl Shape {
    pub fn of(kind: Kind) -> Shape {
        match kind.linear() {
            Kind::Seg1 | Kind::Seg2 => Shape::Seg,
            Kind::Tri3 | Kind::Tri3d3 => Shape::Tri,
            Kind::Quad4 => Shape::Quad,
            Kind::Tet4 => Shape::Tet,
            _ => Shape::Hex,
        }
    }

    pub fn dim(self) -> usize {
        match self {
            Shape::Seg => 1,
            Shape::Tri | Shape::Quad => 2,
            _ => 3,
        }
    }

    pub fn measure(self) -> f64 {
        match self {
            Shape::Seg => 2.0,
            Shape::Tri => 2.0,
            Shape::Quad => 4.0,
            Shape::Tet => 4.0 / 3.0,
            Shape::Hex => 8.0,
            Shape::Prism => 4.0,
            Shape::Pyramid => 8.0 / 3.0,
        }
    }

    pub fn vertices(self) -> Vec<Vec<f64>> {
        let v: Vec<&[f64]> = match self {
            Shape::Seg => vec![&[-1.0], &[1.0]],
            Shape::Tri => vec![&[-1.0, -1.0], &[1.0, -1.0], &[-1.0, 1.0]],
            Shape::Quad => vec![&[-1.0, -1.0], &[1.0, -1.0], &[1.0, 1.0], &[-1.0, 1.0]],
            Shape::Tet => vec![&[-1.0, -1.0, -1.0], &[1.0, -1.0, -1.0], &[-1.0, 1.0, -1.0], &[-1.0, -1.0, 1.0]],
            Shape::Hex => vec![&[-1.0, -1.0, -1.0], &[1.0, -1.0, -1.0], &[1.0, 1.0, -1.0], &[-1.0, 1.0, -1.0], &[-1.0, -1.0, 1.0], &[1.0, -1.0, 1.0], &[1.0, 1.0, 1.0], &[-1.0, 1.0, 1.0]],
            Shape::Prism => vec![&[-1.0, -1.0, -1.0], &[1.0, -1.0, -1.0], &[-1.0, 1.0, -1.0], &[-1.0, -1.0, 1.0], &[1.0, -1.0, 1.0], &[-1.0, 1.0, 1.0]],
            Shape::Pyramid => vec![&[-1.0, -1.0, -1.0], &[1.0, -1.0, -1.0], &[1.0, 1.0, -1.0], &[-1.0, 1.0, -1.0], &[0.0, 0.0, 1.0]],
        };
        v.into_iter().map(|x| x.to_vec()).collect()
    }

    /// Simplices the domain consists of (vertex indices)
    pub fn simplices(self) -> Vec<Vec<usize>> {
        match self {
            Shape::Seg => vec![vec![0, 1]],
            Shape::Tri => vec![vec![0, 1, 2]],
            Shape::Quad => vec![vec![0, 1, 2], vec![0, 2, 3]],
            Shape::Tet => vec![vec![0, 1, 2, 3]],
            // the six tetrahedra around the diagonal 0-6
            Shape::Hex => [[1, 2], [2, 3], [3, 7], [7, 4], [4, 5], [5, 1]].iter().map(|e| vec![0, e[0], e[1], 6]).collect(),
            Shape::Prism => vec![vec![0, 1, 2, 5], vec![0, 1, 5, 4], vec![0, 4, 5, 3]],
            Shape::Pyramid => vec![vec![0, 1, 2, 4], vec![0, 2, 3, 4]],
        }
    }

    pub fn contains(self, x: &[f64], eps: f64) -> bool {
        let lo = |v: f64| v >= -1.0 - eps;
        let hi = |v: f64| v <= 1.0 + eps;
        match self {
            Shape::Seg | Shape::Quad | Shape::Hex => x.iter().all(|v| lo(*v) && hi(*v)),
            Shape::Tri => lo(x[0]) && lo(x[1]) && x[0] + x[1] <= eps,
            Shape::Tet => x.iter().all(|v| lo(*v)) && x[0] + x[1] + x[2] <= -1.0 + eps,
            Shape::Prism => lo(x[0]) && lo(x[1]) && x[0] + x[1] <= eps && lo(x[2]) && hi(x[2]),
            Shape::Pyramid => lo(x[2]) && hi(x[2]) && x[0].abs() <= (1.0 - x[2]) / 2.0 + eps && x[1].abs() <= (1.0 - x[2]) / 2.0 + eps,
        }
    }

    /// Points and weights, exact for polynomials up to the degree (total degree; per variable for boxes)
    pub fn rule(self, degree: usize) -> Vec<(Vec<f64>, f64)> {
        let g = gauss((degree + 3) / 2 + 1);
        let mut out = vec![];
        let d = self.dim();
        let mut idx = vec![0; d];
        loop {
            let t: Vec<f64> = idx.iter().map(|i| g[*i].0).collect();
            let w: f64 = idx.iter().map(|i| g[*i].1).product();
            let (x, jac) = match self {
                Shape::Seg | Shape::Quad | Shape::Hex => (t.clone(), 1.0),
                Shape::Tri => {
                    let s = (1.0 - t[1]) / 2.0;
                    (vec![-1.0 + (t[0] + 1.0) * s, t[1]], s)
                }
                Shape::Prism => {
                    let s = (1.0 - t[1]) / 2.0;
                    (vec![-1.0 + (t[0] + 1.0) * s, t[1], t[2]], s)
                }
                Shape::Tet => {
                    let s2 = (1.0 - t[2]) / 2.0;
                    let s1 = (1.0 - t[1]) / 2.0;
                    let y = -1.0 + (t[1] + 1.0) * s2;
                    (vec![-1.0 + (t[0] + 1.0) * s1 * s2, y, t[2]], s1 * s2 * s2)
                }
                Shape::Pyramid => {
                    let s = (1.0 - t[2]) / 2.0;
                    (vec![t[0] * s, t[1] * s, t[2]], s * s)
                }
            };
            out.push((x, w * jac));
            let mut k = 0;
            while k < d {
                idx[k] += 1;
                if idx[k] < g.len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
            if k == d {
                return out;
            }
        }
    }

    pub fn integrate(self, degree: usize, f: impl Fn(&[f64]) -> f64) -> f64 {
        self.rule(degree).iter().map(|(x, w)| w * f(x)).sum()
    }

    /// Integral of (a.x + b)^k in closed form: over a simplex it is the measure times the mean of the complete
    /// homogeneous symmetric polynomial of the values at the vertices
    pub fn integrate_power(self, a: &[f64], b: f64, k: usize) -> f64 {
        let v = self.vertices();
        let val = |i: usize| a.iter().zip(&v[i]).map(|(x, y)| x * y).sum::<f64>() + b;
        self.simplices()
            .iter()
            .map(|s| {
                let d = s.len() - 1;
                let m = fenris::nalgebra::DMatrix::from_fn(d, d, |i, j| v[s[j + 1]][i] - v[s[0]][i]);
                let fact: f64 = (1..=d).map(|x| x as f64).product();
                let vol = m.determinant().abs() / fact;
                let vals: Vec<f64> = s.iter().map(|i| val(*i)).collect();
                // divided by the number of monomials: binomial(k + d, d)
                let count: f64 = (1..=d).map(|x| (k + x) as f64 / x as f64).product();
                vol * complete(&vals, k) / count
            })
            .sum()
    }
}

fn complete(v: &[f64], k: usize) -> f64 {
    let mut h = vec![0.0; k + 1];
    h[0] = 1.0;
    for x in v {
        for j in 1..=k {
            h[j] += x * h[j - 1];
        }
    }
    h[k]
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn both_ways_agree() {
        for s in SHAPES {
            assert!((s.integrate(0, |_| 1.0) - s.measure()).abs() < 1e-13, "{:?}", s);
            for k in 0..12 {
                let a = [0.5, -0.25, 0.75];
                let e = s.integrate_power(&a[..s.dim()], 0.3, k);
                let r = s.integrate(k, |x| (x.iter().zip(&a).map(|(p, q)| p * q).sum::<f64>() + 0.3).powi(k as i32));
                assert!((e - r).abs() < 1e-12, "{:?} {} {} {}", s, k, e, r);
            }
            assert!(s.rule(5).iter().all(|(x, _)| s.contains(x, 1e-14)));
        }
    }
}
