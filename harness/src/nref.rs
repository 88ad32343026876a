//! Independent numerical references used by the oracles.

/// complementary error function: Taylor series near zero, continued fraction
/// (Lentz) in the tail
pub fn erfc(x: f64) -> f64 {
    if x < 0.0 { return 2.0 - erfc(-x) }
    if x < 2.0 {
        // erf by the Kummer series: 2/sqrt(pi) * exp(-x^2) * sum 2^n x^(2n+1)/(2n+1)!!
        let mut term = x;
        let mut sum = x;
        let mut n = 0.0;
        loop {
            n += 1.0;
            term *= 2.0 * x * x / (2.0 * n + 1.0);
            sum += term;
            if term.abs() < 1e-18 * sum.abs() || n > 500.0 { break }
        }
        return 1.0 - 2.0 / std::f64::consts::PI.sqrt() * (-x * x).exp() * sum
    }
    if x > 40.0 { return 0.0 }
    // exp(-x^2)/sqrt(pi) * 1/(x + 1/2/(x + 1/(x + 3/2/(x + ...))))
    let mut f = x;
    for k in (1..=120).rev() { f = x + (k as f64 / 2.0) / f; }
    (-x * x).exp() / std::f64::consts::PI.sqrt() / f
}

pub fn ncdf(x: f64) -> f64 { 0.5 * erfc(-x / std::f64::consts::SQRT_2) }

/// Black's formula; the limits at zero deviation and zero strike are intrinsic
pub fn black(call: bool, df: f64, f: f64, k: f64, sd: f64) -> f64 {
    if k <= 0.0 || sd <= 0.0 {
        return df * if call { (f - k).max(0.0) } else { (k - f).max(0.0) }
    }
    let dp = (f / k).ln() / sd + 0.5 * sd;
    let dm = dp - sd;
    if call { df * (ncdf(dp) * f - ncdf(dm) * k) } else { df * (ncdf(-dm) * k - ncdf(-dp) * f) }
}

/// dense Gaussian elimination with partial pivoting
pub fn solve(mut a: Vec<Vec<f64>>, mut b: Vec<f64>) -> Vec<f64> {
    let n = b.len();
    for i in 0..n {
        let mut p = i;
        for r in i + 1..n { if a[r][i].abs() > a[p][i].abs() { p = r } }
        a.swap(i, p); b.swap(i, p);
        for r in i + 1..n {
            let m = a[r][i] / a[i][i];
            if m != 0.0 { for c in i..n { let v = a[i][c]; a[r][c] -= m * v } b[r] -= m * b[i]; }
        }
    }
    let mut x = vec![0.0; n];
    for i in (0..n).rev() {
        let mut s = b[i];
        for c in i + 1..n { s -= a[i][c] * x[c] }
        x[i] = s / a[i][i];
    }
    x
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ex { Flat, Natural, Nan, Zero, Throw }

impl Ex {
    pub fn real(self) -> quantmath::math::interpolation::Extrap {
        use quantmath::math::interpolation::Extrap::*;
        match self { Ex::Flat => Flat, Ex::Natural => Natural, Ex::Nan => NotANumber, Ex::Zero => Zero, Ex::Throw => Throw }
    }
    pub const ALL: [Ex; 5] = [Ex::Flat, Ex::Natural, Ex::Nan, Ex::Zero, Ex::Throw];
}

/// Expected outcome of an evaluation: None means an error is expected
pub fn linear(p: &[(f64, f64)], l: Ex, r: Ex, x: f64) -> Option<f64> {
    let n = p.len();
    let line = |a: (f64, f64), b: (f64, f64)| a.1 + (b.1 - a.1) * ((x - a.0) / (b.0 - a.0));
    if x < p[0].0 {
        return match l { Ex::Flat => Some(p[0].1), Ex::Zero => Some(0.0), Ex::Nan => Some(f64::NAN), Ex::Throw => None,
            Ex::Natural => if n > 1 { Some(line(p[0], p[1])) } else { None } }
    }
    if x > p[n - 1].0 {
        return match r { Ex::Flat => Some(p[n - 1].1), Ex::Zero => Some(0.0), Ex::Nan => Some(f64::NAN), Ex::Throw => None,
            Ex::Natural => if n > 1 { Some(line(p[n - 2], p[n - 1])) } else { None } }
    }
    for i in 0..n { if p[i].0 == x { return Some(p[i].1) } }
    for i in 1..n { if x < p[i].0 { return Some(line(p[i - 1], p[i])) } }
    unreachable!()
}

/// Cubic spline through points: natural ends have zero second derivative, any
/// other choice has zero first derivative there.
pub struct Spline { p: Vec<(f64, f64)>, m: Vec<f64>, l: Ex, r: Ex }

impl Spline {
    pub fn new(p: &[(f64, f64)], l: Ex, r: Ex) -> Spline {
        let n = p.len();
        if n == 1 { return Spline { p: p.to_vec(), m: vec![0.0], l, r } }
        let mut a = vec![vec![0.0; n]; n];
        let mut b = vec![0.0; n];
        let h = |i: usize| p[i + 1].0 - p[i].0;
        let s = |i: usize| (p[i + 1].1 - p[i].1) / (p[i + 1].0 - p[i].0);
        if l == Ex::Natural { a[0][0] = 1.0 } else { a[0][0] = h(0) / 3.0; a[0][1] = h(0) / 6.0; b[0] = s(0); }
        if r == Ex::Natural { a[n - 1][n - 1] = 1.0 } else {
            a[n - 1][n - 1] = h(n - 2) / 3.0; a[n - 1][n - 2] = h(n - 2) / 6.0; b[n - 1] = -s(n - 2); }
        for i in 1..n - 1 {
            a[i][i - 1] = h(i - 1) / 6.0;
            a[i][i] = (h(i - 1) + h(i)) / 3.0;
            a[i][i + 1] = h(i) / 6.0;
            b[i] = s(i) - s(i - 1);
        }
        let m = solve(a, b);
        Spline { p: p.to_vec(), m, l, r }
    }
    fn seg(&self, i: usize, x: f64) -> f64 {
        let (lo, hi) = (self.p[i], self.p[i + 1]);
        let h = hi.0 - lo.0;
        let (u, v) = (x - lo.0, hi.0 - x);
        self.m[i] * v.powi(3) / (6.0 * h) + self.m[i + 1] * u.powi(3) / (6.0 * h)
            + (lo.1 / h - self.m[i] * h / 6.0) * v + (hi.1 / h - self.m[i + 1] * h / 6.0) * u
    }
    pub fn eval(&self, x: f64) -> Option<f64> {
        let n = self.p.len();
        if x < self.p[0].0 {
            return match self.l { Ex::Flat => Some(self.p[0].1), Ex::Zero => Some(0.0), Ex::Nan => Some(f64::NAN), Ex::Throw => None,
                Ex::Natural => if n > 1 { Some(self.seg(0, x)) } else { None } }
        }
        if x > self.p[n - 1].0 {
            return match self.r { Ex::Flat => Some(self.p[n - 1].1), Ex::Zero => Some(0.0), Ex::Nan => Some(f64::NAN), Ex::Throw => None,
                Ex::Natural => if n > 1 { Some(self.seg(n - 2, x)) } else { None } }
        }
        for i in 0..n { if self.p[i].0 == x { return Some(self.p[i].1) } }
        for i in 1..n { if x < self.p[i].0 { return Some(self.seg(i - 1, x)) } }
        unreachable!()
    }
    /// size of the terms that are added up, for tolerances
    pub fn scale(&self, x: f64) -> f64 {
        let n = self.p.len();
        let mut s: f64 = 0.0;
        let lo = self.p[0].0; let hi = self.p[n - 1].0;
        let reach = (x - lo).abs().max((hi - x).abs()).max(hi - lo);
        for q in self.p.iter() { s = s.max(q.1.abs()) }
        let mut hmin = f64::INFINITY;
        for i in 1..n { hmin = hmin.min(self.p[i].0 - self.p[i - 1].0) }
        let mm = self.m.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        if n > 1 { s + mm * reach.powi(3) / hmin } else { s }
    }
}
