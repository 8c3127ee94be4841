//! Independent reference models for the colorimetric part, written from the
//! published definitions, in f64.
use crate::fp::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Curve {
    Srgb,
    Bt709,
    Bt2020,
    Linear,
    AlexaLogC3,
    Gamma(f64),
}

pub const CURVES: [Curve; 5] = [Curve::Srgb, Curve::Bt709, Curve::Bt2020, Curve::Linear, Curve::AlexaLogC3];

const A: f64 = 5.555556;
const B: f64 = 0.052272;
const C: f64 = 0.247190;
const D: f64 = 0.385537;
const E: f64 = 5.367655;
const F: f64 = 0.092809;

/// value with an absolute error bound for the given machine epsilon
#[derive(Clone, Copy, Debug)]
pub struct Val {
    pub v: f64,
    pub tol: f64,
}

fn pw(base: f64, e: f64, eps: f64) -> (f64, f64) {
    // exact power and the relative error of evaluating it in a type with eps
    let p = base.powf(e);
    let l = if base > 0.0 { base.ln().abs() } else { 0.0 };
    (p, eps * (8.0 + 4.0 * e.max(1.0) * l))
}

impl Curve {
    /// Encode threshold (scene linear), if any
    pub fn enc_thr(self) -> Option<f64> {
        match self {
            Curve::Srgb => Some(0.0031308),
            Curve::Bt709 | Curve::Bt2020 => Some(0.018),
            Curve::AlexaLogC3 => Some(0.010591),
            _ => None,
        }
    }
    pub fn dec_thr(self) -> Option<f64> {
        match self {
            Curve::Srgb => Some(0.04045),
            Curve::Bt709 | Curve::Bt2020 => Some(0.081),
            Curve::AlexaLogC3 => Some(0.149658),
            _ => None,
        }
    }
    pub fn enc_lin(self, x: f64, eps: f64) -> Val {
        let v = match self {
            Curve::Srgb => 12.92 * x,
            Curve::Bt709 | Curve::Bt2020 => 4.5 * x,
            Curve::AlexaLogC3 => E * x + F,
            Curve::Linear => x,
            Curve::Gamma(_) => f64::NAN,
        };
        let tol = match self {
            Curve::Linear => 0.0,
            Curve::AlexaLogC3 => 4.0 * eps * ((E * x).abs() + F),
            _ => 4.0 * eps * v.abs(),
        };
        Val { v, tol }
    }
    pub fn enc_pow(self, x: f64, eps: f64) -> Val {
        let (a, e) = match self {
            Curve::Srgb => (0.055, 1.0 / 2.4),
            Curve::Bt709 | Curve::Bt2020 => (0.099, 0.45),
            Curve::AlexaLogC3 => {
                let l = (A * x + B).log10();
                return Val {
                    v: C * l + D,
                    tol: 8.0 * eps * (C * l.abs() + D + C),
                };
            }
            Curve::Linear => return self.enc_lin(x, eps),
            Curve::Gamma(g) => {
                let (p, r) = pw(x, 1.0 / g, eps);
                return Val { v: p, tol: r * p };
            }
        };
        let (p, r) = pw(x, e, eps);
        Val {
            v: (1.0 + a) * p - a,
            tol: r * (1.0 + a) * p + 4.0 * eps * a,
        }
    }
    pub fn dec_lin(self, f: f64, eps: f64) -> Val {
        let v = match self {
            Curve::Srgb => f / 12.92,
            Curve::Bt709 | Curve::Bt2020 => f / 4.5,
            Curve::AlexaLogC3 => (f - F) / E,
            Curve::Linear => f,
            Curve::Gamma(_) => f64::NAN,
        };
        let tol = match self {
            Curve::Linear => 0.0,
            Curve::AlexaLogC3 => 4.0 * eps * (f.abs() + F) / E,
            _ => 4.0 * eps * v.abs(),
        };
        Val { v, tol }
    }
    pub fn dec_pow(self, f: f64, eps: f64) -> Val {
        let (a, e) = match self {
            Curve::Srgb => (0.055, 2.4),
            Curve::Bt709 | Curve::Bt2020 => (0.099, 1.0 / 0.45),
            Curve::AlexaLogC3 => {
                let y = (f - D) / C;
                let t = 10f64.powf(y);
                let rel = eps * (8.0 + 2.303 * (4.0 * y.abs() + 4.0 * (f.abs() + D) / C));
                return Val {
                    v: (t - B) / A,
                    tol: (rel * t + 4.0 * eps * B) / A,
                };
            }
            Curve::Linear => return self.dec_lin(f, eps),
            Curve::Gamma(g) => {
                let (p, r) = pw(f, g, eps);
                return Val { v: p, tol: r * p };
            }
        };
        let base = (f + a) / (1.0 + a);
        let (p, r) = pw(base, e, eps);
        Val {
            v: p,
            tol: (r + 8.0 * eps * e) * p,
        }
    }
    fn pick(x: f64, thr: Option<f64>, lin: Val, pow: impl Fn() -> Val, zone: f64) -> (Val, Option<Val>) {
        match thr {
            None => (pow(), None),
            Some(t) => {
                let d = (x - t) / t;
                if d.abs() <= zone {
                    (lin, Some(pow()))
                } else if d < 0.0 {
                    (lin, None)
                } else {
                    (pow(), None)
                }
            }
        }
    }
    /// Admissible encoded values: one, or two inside the threshold's own
    /// rounding zone
    pub fn enc(self, x: f64, eps: f64) -> (Val, Option<Val>) {
        Self::pick(x, self.enc_thr(), self.enc_lin(x, eps), || self.enc_pow(x, eps), 4.0 * eps)
    }
    pub fn dec(self, f: f64, eps: f64) -> (Val, Option<Val>) {
        // the sRGB decode threshold is published both as 0.04045 and as
        // 12.92 * 0.0031308, LogC's cut in six digits; the branches agree to
        // 1e-7 there
        let zone = match self {
            Curve::Srgb | Curve::AlexaLogC3 => 1e-5,
            _ => 4.0 * eps,
        };
        Self::pick(f, self.dec_thr(), self.dec_lin(f, eps), || self.dec_pow(f, eps), zone)
    }
    /// Interval of admissible encodings of a linear value known to lie in
    /// [lo, hi]
    pub fn enc_range(self, lo: f64, hi: f64, eps: f64) -> (f64, f64) {
        if let Curve::Gamma(_) = self {
            let a = if lo > 0.0 { self.enc_pow(lo, eps) } else { Val { v: 0.0, tol: 0.0 } };
            let b = if hi > 0.0 { self.enc_pow(hi, eps) } else { Val { v: 0.0, tol: 0.0 } };
            return (a.v - a.tol, b.v + b.tol);
        }
        let mut min = f64::INFINITY;
        let mut max = f64::NEG_INFINITY;
        let mut add = |v: Val| {
            min = min.min(v.v - v.tol);
            max = max.max(v.v + v.tol);
        };
        for x in [lo, hi] {
            let (a, b) = self.enc(x, eps);
            add(a);
            if let Some(b) = b {
                add(b);
            }
        }
        if let Some(t) = self.enc_thr() {
            if lo <= t * (1.0 + 4.0 * eps) && hi >= t * (1.0 - 4.0 * eps) {
                add(self.enc_lin(t, eps));
                add(self.enc_pow(t, eps));
            }
        }
        (min, max)
    }
}

pub fn admits(got: f64, v: (Val, Option<Val>), type_max: f64) -> bool {
    // results below the smallest normal number may lose everything
    let tiny = if type_max < 1e39 { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
    let one = |w: Val| close(got, w.v, w.tol + tiny) || (w.v.abs() >= type_max * 0.999 && got.is_infinite() && (got > 0.0) == (w.v > 0.0));
    one(v.0) || v.1.map(one).unwrap_or(false)
}

/// A published RGB space
#[derive(Clone, Debug)]
pub struct RefSpace {
    pub name: &'static str,
    pub prim: [[f64; 2]; 3],
    pub white: [f64; 2],
    /// published (XYZ->RGB, RGB->XYZ), or None when derived from the primaries
    pub mats: Option<(M3, M3)>,
    pub curve: Curve,
}

/// RGB->XYZ (unit luminance white) from primaries: columns are primary XYZs
/// scaled to sum to white
pub fn rgb_to_xyz_from_primaries(prim: &[[f64; 2]; 3], white: [f64; 2]) -> M3 {
    let col = |p: [f64; 2]| [p[0], p[1], 1.0 - p[0] - p[1]];
    let c = [col(prim[0]), col(prim[1]), col(prim[2])];
    let p: M3 = [[c[0][0], c[1][0], c[2][0]], [c[0][1], c[1][1], c[2][1]], [c[0][2], c[1][2], c[2][2]]];
    let w = [white[0] / white[1], 1.0, (1.0 - white[0] - white[1]) / white[1]];
    let s = m3_vec(&m3_inv(&p), w);
    let mut r = p;
    for row in r.iter_mut() {
        for j in 0..3 {
            row[j] *= s[j];
        }
    }
    r
}

impl RefSpace {
    pub fn rgb_to_xyz(&self) -> M3 {
        match &self.mats {
            Some(m) => m.1,
            None => rgb_to_xyz_from_primaries(&self.prim, self.white),
        }
    }
    pub fn xyz_to_rgb(&self) -> M3 {
        match &self.mats {
            Some(m) => m.0,
            None => m3_inv(&self.rgb_to_xyz()),
        }
    }
}

const D65: [f64; 2] = [0.3127, 0.3290];

pub fn ref_spaces() -> Vec<RefSpace> {
    let p709 = [[0.64, 0.33], [0.30, 0.60], [0.15, 0.06]];
    let p3 = [[0.680, 0.320], [0.265, 0.690], [0.150, 0.060]];
    vec![
        RefSpace {
            name: "SRGB",
            prim: p709,
            white: D65,
            mats: Some((
                [[3.2406, -1.5372, -0.4986], [-0.9689, 1.8758, 0.0415], [0.0557, -0.2040, 1.0570]],
                [[0.4124, 0.3576, 0.1805], [0.2126, 0.7152, 0.0722], [0.0193, 0.1192, 0.9505]],
            )),
            curve: Curve::Srgb,
        },
        RefSpace {
            name: "ITUR_BT709",
            prim: p709,
            white: D65,
            mats: None,
            curve: Curve::Bt709,
        },
        RefSpace {
            name: "ITUR_BT2020",
            prim: [[0.708, 0.292], [0.170, 0.797], [0.131, 0.046]],
            white: D65,
            mats: None,
            curve: Curve::Bt2020,
        },
        RefSpace {
            name: "DCI_P3",
            prim: p3,
            white: [0.314, 0.351],
            mats: None,
            curve: Curve::Gamma(2.6),
        },
        RefSpace {
            name: "DCI_P3_D65",
            prim: p3,
            white: D65,
            mats: None,
            curve: Curve::Gamma(2.6),
        },
        RefSpace {
            name: "ACES",
            prim: [[0.7347, 0.2653], [0.0, 1.0], [0.0001, -0.077]],
            white: [0.32168, 0.33767],
            mats: Some((
                [
                    [1.0498110175, 0.0, -0.0000974845],
                    [-0.4959030231, 1.3733130458, 0.0982400361],
                    [0.0, 0.0, 0.9912520182],
                ],
                [
                    [0.9525523959, 0.0, 0.0000936786],
                    [0.3439664498, 0.7281660966, -0.0721325464],
                    [0.0, 0.0, 1.0088251844],
                ],
            )),
            curve: Curve::Linear,
        },
        RefSpace {
            name: "ACES_CG",
            prim: [[0.713, 0.293], [0.165, 0.830], [0.128, 0.044]],
            white: [0.32168, 0.33767],
            mats: None,
            curve: Curve::Linear,
        },
        RefSpace {
            name: "ADOBE_RGB_1998",
            prim: [[0.64, 0.33], [0.21, 0.71], [0.15, 0.06]],
            white: D65,
            mats: Some((
                [[2.04159, -0.56501, -0.34473], [-0.96924, 1.87597, 0.04156], [0.01344, -0.11836, 1.01517]],
                [[0.57667, 0.18556, 0.18823], [0.29734, 0.62736, 0.07529], [0.02703, 0.07069, 0.99134]],
            )),
            curve: Curve::Gamma(2.19921875),
        },
        RefSpace {
            name: "ALEXA_WIDE_GAMUT",
            prim: [[0.6840, 0.3130], [0.2210, 0.8480], [0.0861, -0.1020]],
            white: D65,
            mats: Some((
                [
                    [1.789066, -0.482534, -0.200076],
                    [-0.639849, 1.396400, 0.194432],
                    [-0.041532, 0.082335, 0.878868],
                ],
                [
                    [0.638008, 0.214704, 0.097744],
                    [0.291954, 0.823841, -0.115795],
                    [0.002798, -0.067034, 1.153294],
                ],
            )),
            curve: Curve::AlexaLogC3,
        },
        RefSpace {
            name: "SRGB_DRV",
            prim: p709,
            white: D65,
            mats: None,
            curve: Curve::Srgb,
        },
    ]
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cat {
    Bradford,
    VonKries,
    Cat02,
}
pub const CATS: [Cat; 3] = [Cat::Bradford, Cat::VonKries, Cat::Cat02];

impl Cat {
    pub fn cone(self) -> M3 {
        match self {
            Cat::Bradford => [[0.8951, 0.2664, -0.1614], [-0.7502, 1.7135, 0.0367], [0.0389, -0.0685, 1.0296]],
            Cat::VonKries => [[0.40024, 0.7076, -0.08081], [-0.2263, 1.16532, 0.0457], [0.0, 0.0, 0.91822]],
            Cat::Cat02 => [[0.7328, 0.4296, -0.1624], [-0.7036, 1.6975, 0.0061], [0.0030, 0.0136, 0.9834]],
        }
    }
    pub fn matrix(self, src: [f64; 3], dst: [f64; 3]) -> M3 {
        let m = self.cone();
        let inv = m3_inv(&m);
        let s = m3_vec(&m, src);
        let d = m3_vec(&m, dst);
        let mut scaled = m;
        for i in 0..3 {
            for j in 0..3 {
                scaled[i][j] *= d[i] / s[i];
            }
        }
        m3_mul(&inv, &scaled)
    }
}

/// XYZ on the 0-100 scale of an xyY with Y on the 0-1 scale
pub fn xyy_to_xyz(x: f64, y: f64, big_y: f64) -> [f64; 3] {
    let s = 100.0 * big_y / y;
    [x * s, 100.0 * big_y, (1.0 - x - y) * s]
}

pub fn lab_f(t: f64) -> f64 {
    // CIE 15: (6/29)^3 threshold
    let d: f64 = 6.0 / 29.0;
    if t > d * d * d {
        t.cbrt()
    } else {
        t / (3.0 * d * d) + 4.0 / 29.0
    }
}

pub fn lab_finv(u: f64) -> f64 {
    let d: f64 = 6.0 / 29.0;
    if u > d {
        u * u * u
    } else {
        3.0 * d * d * (u - 4.0 / 29.0)
    }
}

pub fn ref_xyz_to_lab(xyz: [f64; 3], w: [f64; 3]) -> [f64; 3] {
    let f = [lab_f(xyz[0] / w[0]), lab_f(xyz[1] / w[1]), lab_f(xyz[2] / w[2])];
    [116.0 * f[1] - 16.0, 500.0 * (f[0] - f[1]), 200.0 * (f[1] - f[2])]
}

pub fn ref_lab_to_xyz(lab: [f64; 3], w: [f64; 3]) -> [f64; 3] {
    let fy = (lab[0] + 16.0) / 116.0;
    let fx = fy + lab[1] / 500.0;
    let fz = fy - lab[2] / 200.0;
    [lab_finv(fx) * w[0], lab_finv(fy) * w[1], lab_finv(fz) * w[2]]
}

/// CIEDE2000 for every admissible resolution of its discontinuities: the
/// formula is discontinuous where the hues are opposite, and where the mean
/// hue crosses 0/360 with a wrapped difference, so near those loci either
/// one-sided value is correct. `zone` is the width of "near" in degrees.
pub fn ciede2000_all(a: [f64; 3], b: [f64; 3], zone: f64) -> Vec<f64> {
    let c_ab = (a[1].hypot(a[2]) + b[1].hypot(b[2])) / 2.0;
    let c7 = c_ab.powf(7.0);
    let k7 = 25f64.powf(7.0);
    let g = 0.5 * (1.0 - (c7 / (c7 + k7)).sqrt());
    let a1 = a[1] * (1.0 + g);
    let a2 = b[1] * (1.0 + g);
    let c1 = a1.hypot(a[2]);
    let c2 = a2.hypot(b[2]);
    let hue = |x: f64, y: f64| {
        if x == 0.0 && y == 0.0 {
            0.0
        } else {
            y.atan2(x).to_degrees().rem_euclid(360.0)
        }
    };
    // the hue itself is discontinuous at 0/360: try both representations
    let alts = |h: f64| {
        let mut v = vec![h];
        if h < zone {
            v.push(h + 360.0);
        } else if h > 360.0 - zone {
            v.push(h - 360.0);
        }
        v
    };
    let mut out = Vec::new();
    for h1 in alts(hue(a1, a[2])) {
        for h2 in alts(hue(a2, b[2])) {
            let mut variants: Vec<(f64, f64)> = Vec::new(); // (dh, hbar)
            let d = h2 - h1;
            let s = h1 + h2;
            if c1 * c2 == 0.0 {
                variants.push((0.0, s));
            } else {
                if d.abs() <= 180.0 + zone {
                    variants.push((d, s / 2.0));
                }
                if d.abs() >= 180.0 - zone {
                    let dh = if d > 0.0 { d - 360.0 } else { d + 360.0 };
                    if s < 360.0 + zone {
                        variants.push((dh, s / 2.0 + 180.0));
                    }
                    if s >= 360.0 - zone {
                        variants.push((dh, s / 2.0 - 180.0));
                    }
                }
            }
            for (dh, hbar) in variants {
                let dl = b[0] - a[0];
                let dc = c2 - c1;
                let dhh = 2.0 * (c1 * c2).sqrt() * (dh.to_radians() / 2.0).sin();
                let lbar = (a[0] + b[0]) / 2.0;
                let cbar = (c1 + c2) / 2.0;
                let rad = |x: f64| x.to_radians();
                let t = 1.0 - 0.17 * rad(hbar - 30.0).cos() + 0.24 * rad(2.0 * hbar).cos() + 0.32 * rad(3.0 * hbar + 6.0).cos()
                    - 0.20 * rad(4.0 * hbar - 63.0).cos();
                let dtheta = 30.0 * (-((hbar - 275.0) / 25.0).powi(2)).exp();
                let cb7 = cbar.powf(7.0);
                let rc = 2.0 * (cb7 / (cb7 + k7)).sqrt();
                let l50 = (lbar - 50.0) * (lbar - 50.0);
                let sl = 1.0 + 0.015 * l50 / (20.0 + l50).sqrt();
                let sc = 1.0 + 0.045 * cbar;
                let sh = 1.0 + 0.015 * cbar * t;
                let rt = -rad(2.0 * dtheta).sin() * rc;
                let (x, y, z) = (dl / sl, dc / sc, dhh / sh);
                out.push((x * x + y * y + z * z + rt * y * z).max(0.0).sqrt());
            }
        }
    }
    out
}
