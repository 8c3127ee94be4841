//! Reference operations on spectra as plain lists of (wavelength, value).
//! Written from the definitions, sharing nothing with the crate.

pub type Spec = Vec<(f64, f64)>;

pub fn vmax(s: &[(f64, f64)]) -> f64 {
    s.iter().map(|p| p.1.abs()).fold(0.0, f64::max)
}

/// Sample values with two boundary values on either side: the published
/// sixth-difference extension, straight lines when there are fewer than six
pub fn padded(v: &[f64]) -> Vec<f64> {
    let n = v.len();
    let mut y = Vec::with_capacity(n + 4);
    if n >= 6 {
        let ext = |g: &dyn Fn(usize) -> f64| -> (f64, f64) {
            let outer = 884.0 * g(0) - 1960.0 * g(1) + 3033.0 * g(2) - 2648.0 * g(3) + 1080.0 * g(4) - 180.0 * g(5);
            let inner = 508.0 * g(0) - 540.0 * g(1) + 488.0 * g(2) - 367.0 * g(3) + 144.0 * g(4) - 24.0 * g(5);
            (outer / 209.0, inner / 209.0)
        };
        let (lo2, lo1) = ext(&|i| v[i]);
        let (hi2, hi1) = ext(&|i| v[n - 1 - i]);
        y.push(lo2);
        y.push(lo1);
        y.extend_from_slice(v);
        y.push(hi1);
        y.push(hi2);
    } else {
        let d0 = v[1] - v[0];
        let d1 = v[n - 1] - v[n - 2];
        y.push(v[0] - 2.0 * d0);
        y.push(v[0] - d0);
        y.extend_from_slice(v);
        y.push(v[n - 1] + d1);
        y.push(v[n - 1] + 2.0 * d1);
    }
    y
}

/// The quintic matching value, fourth-order slope and fourth-order curvature
/// at both ends of the gap y[i]..y[i+1] (this is Sprague's polynomial)
pub fn sprague_gap(y: &[f64], i: usize, t: f64) -> f64 {
    let d1 = |k: usize| (y[k - 2] - 8.0 * y[k - 1] + 8.0 * y[k + 1] - y[k + 2]) / 12.0;
    let d2 = |k: usize| (-y[k - 2] + 16.0 * y[k - 1] - 30.0 * y[k] + 16.0 * y[k + 1] - y[k + 2]) / 12.0;
    // quintic Hermite basis
    let (t2, t3) = (t * t, t * t * t);
    let (t4, t5) = (t2 * t2, t2 * t3);
    let h00 = 1.0 - 10.0 * t3 + 15.0 * t4 - 6.0 * t5;
    let h01 = 10.0 * t3 - 15.0 * t4 + 6.0 * t5;
    let h10 = t - 6.0 * t3 + 8.0 * t4 - 3.0 * t5;
    let h11 = -4.0 * t3 + 7.0 * t4 - 3.0 * t5;
    let h20 = 0.5 * t2 - 1.5 * t3 + 1.5 * t4 - 0.5 * t5;
    let h21 = 0.5 * t3 - t4 + 0.5 * t5;
    h00 * y[i] + h01 * y[i + 1] + h10 * d1(i) + h11 * d1(i + 1) + h20 * d2(i) + h21 * d2(i + 1)
}

pub struct Sprague {
    x: Vec<f64>,
    y: Vec<f64>,
    pub max: f64,
    min_gap: f64,
}

impl Sprague {
    pub fn new(s: &[(f64, f64)]) -> Sprague {
        let x: Vec<f64> = s.iter().map(|p| p.0).collect();
        let v: Vec<f64> = s.iter().map(|p| p.1).collect();
        let y = padded(&v);
        Sprague {
            max: y.iter().fold(0.0, |a: f64, b| a.max(b.abs())),
            min_gap: x.windows(2).map(|w| w[1] - w[0]).fold(f64::INFINITY, f64::min),
            x,
            y,
        }
    }
    /// Value at nm, which must lie within the samples
    pub fn at(&self, nm: f64) -> f64 {
        let n = self.x.len();
        // last sample not above nm
        let i = match self.x.iter().rposition(|x| *x <= nm) {
            Some(i) => i.min(n - 2),
            None => 0,
        };
        let t = (nm - self.x[i]) / (self.x[i + 1] - self.x[i]);
        sprague_gap(&self.y, i + 2, t)
    }
    /// Admissible rounding of a value interpolated at nm
    pub fn tol(&self, nm: f64) -> f64 {
        self.max * (1e-12 + 300.0 * f64::EPSILON * (1.0 + nm.abs() / self.min_gap))
    }
}

/// Sprague inside the samples, nearest end value outside
pub struct Resampler {
    sp: Sprague,
    first: (f64, f64),
    last: (f64, f64),
}
impl Resampler {
    pub fn new(s: &[(f64, f64)]) -> Resampler {
        Resampler {
            sp: Sprague::new(s),
            first: s[0],
            last: s[s.len() - 1],
        }
    }
    pub fn at(&self, nm: f64) -> f64 {
        if nm <= self.first.0 {
            self.first.1
        } else if nm >= self.last.0 {
            self.last.1
        } else {
            self.sp.at(nm)
        }
    }
    pub fn tol(&self, nm: f64) -> f64 {
        self.sp.tol(nm)
    }
}

/// Number of whole steps from start to end: Some(n), or None when rounding
/// makes the count a matter of taste
pub fn steps(start: f64, end: f64, interval: f64) -> Option<usize> {
    let q = (end - start) / interval;
    let r = q.round();
    if (q - r).abs() * interval <= 2.5 * f64::EPSILON * start.abs().max(end.abs()) {
        Some(r as usize)
    } else if (q - r).abs() < 1e-6 || q < 0.0 {
        None
    } else {
        Some(q.floor() as usize)
    }
}

pub fn grid(start: f64, interval: f64, n: usize) -> Vec<f64> {
    (0..=n).map(|k| start + k as f64 * interval).collect()
}

pub fn linear_at(s: &[(f64, f64)], nm: f64) -> f64 {
    let n = s.len();
    if nm <= s[0].0 {
        return s[0].1;
    }
    if nm >= s[n - 1].0 {
        return s[n - 1].1;
    }
    let i = s.iter().rposition(|p| p.0 <= nm).unwrap().min(n - 2);
    let (a, b) = (s[i], s[i + 1]);
    a.1 + (b.1 - a.1) * ((nm - a.0) / (b.0 - a.0))
}

/// Keep the samples and add end values at `interval` out to [start, end]
pub fn extrapolate(s: &[(f64, f64)], start: f64, end: f64, interval: f64) -> Option<Spec> {
    let (f, l) = (s[0], s[s.len() - 1]);
    let nb = if start < f.0 { steps(start, f.0, interval)? } else { 0 };
    let na = if end > l.0 { steps(l.0, end, interval)? } else { 0 };
    let mut r: Spec = (1..=nb).rev().map(|k| (f.0 - k as f64 * interval, f.1)).collect();
    r.extend_from_slice(s);
    r.extend((1..=na).map(|k| (l.0 + k as f64 * interval, l.1)));
    Some(r)
}

pub fn trim(s: &[(f64, f64)], start: f64, end: f64) -> Spec {
    s.iter().copied().filter(|p| p.0 >= start && p.0 <= end).collect()
}

/// 100 * sum(S R c) / sum(S ybar) over the wavelengths of the grid.
/// Also the sum of magnitudes, for rounding bounds.
pub fn integrate(grid: &[f64], refl: &dyn Fn(f64) -> f64, illum: &dyn Fn(f64) -> f64, cmf: &[&dyn Fn(f64) -> f64; 3]) -> ([f64; 3], f64) {
    let mut s = [0.0; 3];
    let mut n = 0.0;
    let mut mag = 0.0f64;
    for &w in grid {
        let (r, e) = (refl(w), illum(w));
        for k in 0..3 {
            let t = r * e * cmf[k](w);
            s[k] += t;
            mag += t.abs();
        }
        n += e * cmf[1](w);
    }
    ([100.0 * s[0] / n, 100.0 * s[1] / n, 100.0 * s[2] / n], 100.0 * mag / n.abs())
}

/// Piecewise Lagrange reconstruction used by ASTM E2022: cubic through four
/// neighbours inside, quadratic in the first and the last gap
pub fn lagrange_piecewise(y: &[f64], x: f64) -> f64 {
    // x in units of the gap, 0..=y.len()-1
    let n = y.len();
    let i = (x.floor() as usize).min(n - 2);
    let (a, b) = if i == 0 {
        (0, 2)
    } else if i == n - 2 {
        (n - 3, n - 1)
    } else {
        (i - 1, i + 2)
    };
    let mut s = 0.0;
    for j in a..=b {
        let mut l = 1.0;
        for k in a..=b {
            if k != j {
                l *= (x - k as f64) / (j as f64 - k as f64);
            }
        }
        s += l * y[j];
    }
    s
}
