//! C22 and C24: any call of the public API as data, so that whole histories
//! of calls can be generated, replayed in any order, on any thread, in
//! another process or under a sanitizer.
use crate::c_color::{rgb_d, rgb_of, xyz_d, xyz_of, Models};
use crate::c_rest::noise;
use crate::c_spec::of_vspd;
use crate::engine::*;
use crate::ensure;
use crate::fp::*;
use crate::gen::*;
use crate::tables;
use crate::by_precision;
use colorspace::interpolation::{ExtrapolatorConstant, InterpolatorLinear, InterpolatorSprague};
use colorspace::rgb::*;
use colorspace::vspd::{lagrange_coefficients_astm_e2022, linspace, Interval};
use colorspace::*;
use float_cmp::{ApproxEq, F32Margin, F64Margin};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::hash::{Hash, Hasher};
use std::sync::{Barrier, OnceLock};

/// A float of any bit pattern, stored by its bits
#[derive(Clone, Copy, Serialize, Deserialize, PartialEq)]
#[serde(transparent)]
pub struct B(u64);
impl std::fmt::Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:e}", self.f())
    }
}
impl B {
    fn f(self) -> f64 {
        f64::from_bits(self.0)
    }
}
fn b(x: f64) -> B {
    B(x.to_bits())
}
type V = [B; 3];
fn v3(v: &V) -> [f64; 3] {
    [v[0].f(), v[1].f(), v[2].f()]
}

/// Any public function with its arguments. Selectors are taken modulo the
/// number of alternatives, so every value of this type is a valid call.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    Transfer { single: bool, f: u8, x: V },
    Model { single: bool, i: u8, dec: bool, x: V },
    Build { single: bool, prim: [V; 4], x: V },
    SpaceMatrix { single: bool, kind: u8, i: u8, j: u8, white: V },
    Pixel { single: bool, kind: u8, m: Vec<B>, x: V },
    Slice { single: bool, i: u8, j: u8, out: u8, n: [u16; 2], seed: u32 },
    Many { single: bool, m: Vec<B>, n: u16, seed: u32 },
    Cat { single: bool, kind: u8, src: V, dst: V },
    Convert { single: bool, kind: u8, x: V, w: V },
    Delta { single: bool, kind: u8, a: V, b: V },
    Quantise { single: bool, wide: bool, x: V },
    Dequantise { single: bool, wide: bool, x: [u16; 3] },
    Matrix { single: bool, op: u8, a: Vec<B>, b: Vec<B>, s: B },
    Vector { single: bool, op: u8, a: V, b: V, s: B },
    Index { kind: u8, write: bool, i: u64 },
    Cast { kind: u8, n: u16, offset: u8 },
    Fixed { op: u8, v: Vec<B>, w: Vec<B> },
    Planes { width: u8, m: Vec<B>, n: [u16; 3], seed: u32 },
    Spectrum { s: SpecArg, ops: Vec<(u8, ShapeArg, B)> },
    ToXyz { s: SpecArg, il: SpecArg, obs: ObsArg },
    CmfAlign { obs: ObsArg, sh: ShapeArg },
    Custom { single: bool, prim: [V; 4], curve: u8, j: u8, kind: u8, n: [u16; 2], seed: u32 },
    At { s: SpecArg, kind: u8, x: B },
    Nit { s: SpecArg, obs: ObsArg },
    Uplift { x: V },
    Cct { single: bool, t: B },
    Linspace { a: B, z: B, n: u16 },
    Lagrange { interval: B, degree: u8 },
    Shape { single: bool, s: ShapeArg },
    Table { t: u8 },
}

/// A spectrum argument
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SpecArg {
    /// one of the bundled spectra
    Bundled(u8),
    /// evenly spaced values
    Even { start: B, interval: B, v: Vec<B> },
    /// whatever samples
    Any(Vec<(B, B)>),
}

/// An observer argument: the bundled one, scaled per curve or not, or one
/// made of a given spectrum
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ObsArg {
    Cie,
    Scaled(V),
    Of(SpecArg, V),
}

impl ObsArg {
    fn cmf(&self) -> CMF {
        let c = &cmf::CIE_1931_2_DEGREE;
        match self {
            ObsArg::Cie => (*c).clone(),
            ObsArg::Scaled(k) => CMF {
                x_bar: &c.x_bar * k[0].f(),
                y_bar: &c.y_bar * k[1].f(),
                z_bar: &c.z_bar * k[2].f(),
            },
            ObsArg::Of(s, k) => {
                let s = s.tame().vspd();
                CMF {
                    x_bar: &s * k[0].f(),
                    y_bar: &s * k[1].f(),
                    z_bar: &s * k[2].f(),
                }
            }
        }
    }
}

fn cmf_bits(c: &CMF) -> [Vec<(u64, u64)>; 3] {
    [bits_of(&c.x_bar), bits_of(&c.y_bar), bits_of(&c.z_bar)]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShapeArg {
    start: B,
    n: u16,
    interval: B,
    varying: bool,
}

impl ShapeArg {
    fn it(&self) -> SpdShape<f64> {
        // bounded, so that no call asks for an unreasonable amount of memory
        let n = (self.n % 700) as f64 - 20.0;
        let (mut s, i) = (self.start.f(), self.interval.f());
        if s.abs() > 1e7 {
            s = s.signum() * 1e7;
        }
        let i = if i.is_nan() || i.abs() < 1e-3 { 1.0 } else { i };
        let mut sh = SpdShape::new(s, s + n * i, i);
        if self.varying {
            sh.interval = Interval::Varying;
        }
        sh
    }
}

impl SpecArg {
    fn vspd(&self) -> VSPD {
        match self {
            SpecArg::Bundled(k) => match k % 12 {
                0 => illuminant::spd::D50.clone(),
                1 => illuminant::spd::D55.clone(),
                2 => illuminant::spd::D60.clone(),
                3 => illuminant::spd::D65.clone(),
                4 => cmf::CIE_1931_2_DEGREE.x_bar.clone(),
                5 => cmf::CIE_1931_2_DEGREE.y_bar.clone(),
                6 => colorchecker::SPECTRAL["cyan"].clone(),
                7 => colorchecker::SPECTRAL["red"].clone(),
                8 => uplifting::MY_RED.clone(),
                9 => uplifting::MY_BLUE.clone(),
                10 => uplifting::SMITS_YELLOW.clone(),
                _ => colorchecker::DARK_SKIN.clone(),
            },
            SpecArg::Even { start, interval, v } => v.iter().enumerate().map(|(i, x)| (start.f() + i as f64 * interval.f(), x.f())).collect(),
            SpecArg::Any(s) => VSPD::new(s.iter().map(|p| vspd::Sample::new(p.0.f(), p.1.f())).collect()),
        }
    }
    /// keep the spans that an operation may have to fill bounded
    fn tame(&self) -> SpecArg {
        let lim = |x: B| {
            let f = x.f();
            if f.is_finite() && f.abs() > 1e5 {
                b(f.signum() * 1e5)
            } else {
                x
            }
        };
        match self {
            SpecArg::Any(s) => SpecArg::Any(s.iter().map(|p| (lim(p.0), p.1)).collect()),
            SpecArg::Even { start, interval, v } => SpecArg::Even {
                start: lim(*start),
                interval: lim(*interval),
                v: v.clone(),
            },
            o => o.clone(),
        }
    }
}

/// Accumulates result bits; all NaNs are the same
#[derive(Default)]
struct Out(Vec<u64>);
impl Out {
    fn f(&mut self, x: f64) {
        self.0.push(if x.is_nan() { 0x7ff8_0000_0000_0000 } else { x.to_bits() });
    }
    fn all(&mut self, x: &[f64]) {
        for v in x {
            self.f(*v);
        }
    }
    fn n(&mut self, x: usize) {
        self.0.push(x as u64);
    }
    fn s(&mut self, x: &str) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        self.0.push(h.finish());
    }
    fn spec(&mut self, s: &VSPD) {
        self.n(s.len());
        for p in s.iter() {
            self.f(p.nm);
            self.f(p.v);
        }
        self.f(s.start());
        self.f(s.end());
        match s.interval() {
            Interval::Uniform(i) => self.f(i),
            Interval::Varying => self.n(7),
        }
    }
    fn m<T: Fp>(&mut self, m: &Matrix33<T>) {
        for x in m.x.iter() {
            self.f(x.d());
        }
    }
}

fn mat<T: Fp>(m: &[B]) -> Matrix33<T> {
    let mut x = [T::zero(); 9];
    for (a, c) in x.iter_mut().zip(m) {
        *a = T::of(c.f());
    }
    Matrix33::new(x)
}

fn space<T: Models>(i: u8) -> &'static ColorSpaceRGB<T> {
    T::model((i % 9) as usize).expect("model")
}

fn pixels<T: Fp>(n: usize, seed: u32) -> Vec<RGBf<T>> {
    let mut v: Vec<RGBf<T>> = (0..n)
        .map(|i| {
            rgb_of::<T>([
                noise(seed, 3 * i) * 1.2 - 0.1,
                noise(seed, 3 * i + 1) * 1.2 - 0.1,
                noise(seed, 3 * i + 2) * 1.2 - 0.1,
            ])
        })
        .collect();
    v.shrink_to_fit();
    v
}

/// The arguments a call reads through references, before and after
fn unchanged<A: PartialEq + std::fmt::Debug>(what: &str, a: &A, b: &A) -> CheckResult {
    ensure!(a == b, "{} changed its input", what);
    Ok(())
}

fn eval_t<T: Models>(c: &Call, o: &mut Out) -> CheckResult
where
    RGBu8: From<RGBf<T>> + Clone,
    RGBu16: From<RGBf<T>>,
    RGBf<T>: From<RGBu8> + From<RGBu16>,
{
    match c {
        Call::Transfer { f, x, .. } => {
            let x = rgb_of::<T>(v3(x));
            let r = match f % 10 {
                0 => encode::srgb(x),
                1 => encode::bt709(x),
                2 => encode::bt2020(x),
                3 => encode::linear(x),
                4 => encode::alexa_logc_v3(x),
                5 => decode::srgb(x),
                6 => decode::bt709(x),
                7 => decode::bt2020(x),
                8 => decode::linear(x),
                _ => decode::alexa_logc_v3(x),
            };
            o.all(&rgb_d(r));
        }
        Call::Model { i, dec, x, .. } => {
            let x = rgb_of::<T>(v3(x));
            let s = space::<T>(*i);
            o.all(&rgb_d(if *dec { s.decode(x) } else { s.encode(x) }));
        }
        Call::Build { prim, x, .. } => {
            let p = |k: usize| XYY::<T>::new(T::of(prim[k][0].f()), T::of(prim[k][1].f()), T::one());
            let s = ColorSpaceRGB::<T>::new(p(0), p(1), p(2), p(3), Box::new(encode::srgb), Box::new(decode::srgb));
            o.m(&s.xf_rgb_to_xyz);
            o.m(&s.xf_xyz_to_rgb);
            o.all(&rgb_d(s.encode(rgb_of::<T>(v3(x)))));
        }
        Call::SpaceMatrix { kind, i, j, white, .. } => {
            let (a, d) = (space::<T>(*i), space::<T>(*j));
            let w = XYY::<T>::new(T::of(white[0].f()), T::of(white[1].f()), T::of(white[2].f()));
            o.m(&match kind % 4 {
                0 => xyz_to_rgb_matrix(w, a),
                1 => rgb_to_xyz_matrix(w, a),
                2 => rgb_to_rgb_matrix(a, d),
                _ => xyz_to_rgb_matrix_with_cat(&chromatic_adaptation::bradford(w, d.white), a),
            });
        }
        Call::Custom { prim, curve, j, kind, n, seed, .. } => {
            let p = |k: usize| XYY::<T>::new(T::of(prim[k][0].f()), T::of(prim[k][1].f()), T::of(prim[k][2].f()));
            let (e, d): (Box<dyn Fn(RGBf<T>) -> RGBf<T> + Sync + Send>, Box<dyn Fn(RGBf<T>) -> RGBf<T> + Sync + Send>) = match curve % 4 {
                0 => (Box::new(encode::linear), Box::new(decode::linear)),
                1 => (Box::new(encode::srgb), Box::new(decode::srgb)),
                2 => (Box::new(encode::bt709), Box::new(decode::bt709)),
                _ => (Box::new(encode::alexa_logc_v3), Box::new(decode::alexa_logc_v3)),
            };
            let own = ColorSpaceRGB::<T>::new(p(0), p(1), p(2), p(3), e, d);
            let other = space::<T>(*j);
            let (a, z): (&ColorSpaceRGB<T>, &ColorSpaceRGB<T>) = if kind % 2 == 0 { (&own, other) } else { (other, &own) };
            match kind / 2 % 3 {
                0 => o.m(&rgb_to_rgb_matrix(a, z)),
                1 => {
                    o.m(&xyz_to_rgb_matrix(a.white, z));
                    o.m(&rgb_to_xyz_matrix(a.white, z));
                }
                _ => {
                    let src = pixels::<T>((n[0] % 60) as usize, *seed);
                    let mut to = vec![rgb_of::<T>([-7.0; 3]); (n[1] % 60) as usize];
                    o.n(rgb_to_rgb(a, z, &src, &mut to));
                    for p in &to {
                        o.all(&rgb_d(*p));
                    }
                }
            }
        }
        Call::Pixel { kind, m, x, .. } => {
            let m = mat::<T>(m);
            match kind % 2 {
                0 => o.all(&rgb_d(xyz_to_rgb(&m, xyz_of::<T>(v3(x))))),
                _ => o.all(&xyz_d(rgb_to_xyz(&m, rgb_of::<T>(v3(x))))),
            }
        }
        Call::Slice { i, j, out, n, seed, .. } => {
            let (a, d) = (space::<T>(*i), space::<T>(*j));
            let src = pixels::<T>((n[0] % 600) as usize, *seed);
            let keep = src.clone();
            let no = (n[1] % 600) as usize;
            match out % 3 {
                0 => {
                    let mut to = vec![rgb_of::<T>([-7.0; 3]); no];
                    o.n(rgb_to_rgb(a, d, &src, &mut to));
                    for p in &to {
                        o.all(&rgb_d(*p));
                    }
                }
                1 => {
                    let mut to = vec![rgbu8(1, 2, 3); no];
                    o.n(rgb_to_rgb(a, d, &src, &mut to));
                    for p in &to {
                        o.all(&[p.r as f64, p.g as f64, p.b as f64]);
                    }
                }
                _ => {
                    let mut to = vec![rgbu16(1, 2, 3); no];
                    o.n(rgb_to_rgb(a, d, &src, &mut to));
                    for p in &to {
                        o.all(&[p.r as f64, p.g as f64, p.b as f64]);
                    }
                }
            }
            unchanged("rgb_to_rgb", &src, &keep)?;
        }
        Call::Many { m, n, seed, .. } => {
            let m = mat::<T>(m);
            let src: Vec<_> = pixels::<T>((*n % 1200) as usize, *seed).into_iter().map(|p| xyz_of::<T>(rgb_d(p))).collect();
            let keep = src.clone();
            let r = xyz_slice_to_rgb(&m, &src);
            unchanged("xyz_slice_to_rgb", &src, &keep)?;
            o.n(r.len());
            for p in &r {
                o.all(&rgb_d(*p));
            }
        }
        Call::Cat { kind, src, dst, .. } => {
            let (a, d) = (xyz_of::<T>(v3(src)), xyz_of::<T>(v3(dst)));
            o.m(&match kind % 3 {
                0 => chromatic_adaptation::bradford(a, d),
                1 => chromatic_adaptation::von_kries(a, d),
                _ => chromatic_adaptation::cat02(a, d),
            });
        }
        Call::Convert { kind, x, w, .. } => {
            let (xv, wv) = (xyz_of::<T>(v3(x)), xyz_of::<T>(v3(w)));
            match kind % 6 {
                0 => {
                    let l = lab::xyz_to_lab(xv, wv);
                    o.all(&[l.L.d(), l.a.d(), l.b.d()]);
                }
                1 => {
                    let v = v3(x);
                    o.all(&xyz_d(lab::lab_to_xyz(lab::lab(T::of(v[0]), T::of(v[1]), T::of(v[2])), wv)));
                }
                2 => {
                    let c = XYY::from(xv);
                    o.all(&[c.x.d(), c.y.d(), c.Y.d()]);
                }
                3 => {
                    let v = v3(x);
                    o.all(&xyz_d(colorspace::xyz::XYZ::from(XYY::<T>::new(T::of(v[0]), T::of(v[1]), T::of(v[2])))));
                }
                4 => o.all(&xyz_d(xv.normalized())),
                _ => o.all(&xyz_d(xv.normalized_y())),
            }
        }
        Call::Delta { kind, a, b, .. } => {
            let l = |v: &V| {
                let v = v3(v);
                lab::lab(T::of(v[0]), T::of(v[1]), T::of(v[2]))
            };
            o.f(match kind % 2 {
                0 => lab::delta_E_1976(l(a), l(b)).d(),
                _ => lab::delta_E_2000(l(a), l(b)).d(),
            });
        }
        Call::Quantise { wide, x, .. } => {
            let x = rgb_of::<T>(v3(x));
            if *wide {
                let p = RGBu16::from(x);
                o.all(&[p.r as f64, p.g as f64, p.b as f64]);
            } else {
                let p = RGBu8::from(x);
                o.all(&[p.r as f64, p.g as f64, p.b as f64]);
            }
        }
        Call::Dequantise { wide, x, .. } => {
            let p: RGBf<T> = if *wide { rgbu16(x[0], x[1], x[2]).into() } else { rgbu8(x[0] as u8, x[1] as u8, x[2] as u8).into() };
            o.all(&rgb_d(p));
        }
        Call::Matrix { op, a, b, s, .. } => {
            let (a, d, s) = (mat::<T>(a), mat::<T>(b), T::of(s.f()));
            let mut opt = |m: Option<Matrix33<T>>| match m {
                Some(m) => o.m(&m),
                None => o.n(3),
            };
            match op % 10 {
                0 => opt(a.inverse()),
                1 => opt(a.gj_inverse()),
                2 => o.m(&(a * d)),
                3 => o.m(&a.transposed()),
                4 => o.f(a.determinant().d()),
                5 => o.m(&(a * s)),
                6 => o.m(&(a / s)),
                7 => o.m(&(a + s)),
                8 => o.m(&(a - s)),
                _ => o.m(&-a),
            }
        }
        Call::Vector { op, a, b, s, .. } => {
            let (x, y) = (rgb_of::<T>(v3(a)), rgb_of::<T>(v3(b)));
            let (p, q) = (xyz_of::<T>(v3(a)), xyz_of::<T>(v3(b)));
            let s = T::of(s.f());
            match op % 16 {
                0 => o.all(&rgb_d(x + y)),
                1 => o.all(&rgb_d(x - y)),
                2 => o.all(&rgb_d(x * y)),
                3 => o.all(&rgb_d(x / y)),
                4 => o.all(&rgb_d(x * s)),
                5 => o.all(&rgb_d(x / s)),
                6 => o.all(&rgb_d(x.powf(s))),
                7 => o.all(&rgb_d(x.abs())),
                8 => o.f(hmax(x).d()),
                9 => o.all(&rgb_d(normalize(x))),
                10 => o.all(&rgb_d(clamprgb(x, s, y.r))),
                11 => o.all(&xyz_d(p + q)),
                12 => o.all(&xyz_d(p * q)),
                13 => o.all(&xyz_d(p / s)),
                14 => o.all(&xyz_d(p - q)),
                _ => o.s(&format!("{} {}", x, p)),
            }
        }
        Call::Cct { t, .. } => match illuminant::xy::cct(T::of(t.f())) {
            Ok(c) => o.all(&[c.x.d(), c.y.d(), c.Y.d()]),
            Err(_) => o.n(1),
        },
        _ => unreachable!(),
    }
    Ok(())
}

fn fixed(v: &[B]) -> SPD {
    let mut a = [0.0f32; 40];
    for (x, y) in a.iter_mut().zip(v) {
        *x = y.f() as f32;
    }
    SPD::new(a)
}

fn eval_in(c: &Call, o: &mut Out) -> CheckResult {
    match c {
        Call::Transfer { single, .. }
        | Call::Model { single, .. }
        | Call::Build { single, .. }
        | Call::Custom { single, .. }
        | Call::SpaceMatrix { single, .. }
        | Call::Pixel { single, .. }
        | Call::Slice { single, .. }
        | Call::Many { single, .. }
        | Call::Cat { single, .. }
        | Call::Convert { single, .. }
        | Call::Delta { single, .. }
        | Call::Quantise { single, .. }
        | Call::Dequantise { single, .. }
        | Call::Matrix { single, .. }
        | Call::Vector { single, .. }
        | Call::Cct { single, .. } => return by_precision!(*single, eval_t, c, o),
        Call::Index { kind, write, i } => {
            let i = *i as usize;
            let mut x = rgbf32(1.0, 2.0, 3.0);
            let mut y = rgbf64(1.0, 2.0, 3.0);
            let mut p = XYZf32::new(1.0, 2.0, 3.0);
            let mut q = XYZf64::new(1.0, 2.0, 3.0);
            let mut m = M3f32::make_identity();
            let mut n = M3f64::make_identity();
            if *write {
                match kind % 6 {
                    0 => x[i] = 9.0,
                    1 => y[i] = 9.0,
                    2 => p[i] = 9.0,
                    3 => q[i] = 9.0,
                    4 => m[i % 7][i / 7] = 9.0,
                    _ => n[i % 7][i / 7] = 9.0,
                }
                o.all(&rgb_d(x));
                o.all(&rgb_d(y));
                o.all(&xyz_d(p));
                o.all(&xyz_d(q));
                o.m(&m);
                o.m(&n);
            } else {
                o.f(match kind % 6 {
                    0 => x[i] as f64,
                    1 => y[i],
                    2 => p[i] as f64,
                    3 => q[i],
                    4 => m[i % 7][i / 7] as f64,
                    _ => n[i % 7][i / 7],
                });
            }
        }
        Call::Cast { kind, n, offset } => {
            // boxed slices of exactly this length
            let (n, off) = ((*n % 3000) as usize, (*offset % 4) as usize);
            match kind % 3 {
                0 => {
                    let v: Box<[f32]> = (0..n + off).map(|i| i as f32).collect();
                    for p in RGBf32::cast_slice(&v[off..]) {
                        o.all(&rgb_d(*p));
                    }
                }
                1 => {
                    let v: Box<[f64]> = (0..n + off).map(|i| i as f64).collect();
                    for p in RGBf64::cast_slice(&v[off..]) {
                        o.all(&rgb_d(*p));
                    }
                }
                _ => {
                    let v: Box<[u8]> = (0..n + off).map(|i| i as u8).collect();
                    for p in RGBu8::cast_slice(&v[off..]) {
                        o.all(&[p.r as f64, p.g as f64, p.b as f64]);
                    }
                }
            }
        }
        Call::Fixed { op, v, w } => {
            // on the heap, so that a read past the end is seen
            let (s, t) = (Box::new(fixed(v)), Box::new(fixed(w)));
            let (k1, k2) = (s.values.map(f32::to_bits), t.values.map(f32::to_bits));
            let xyz = |o: &mut Out, x: XYZf32| o.all(&[x.x as f64, x.y as f64, x.z as f64]);
            match op % 7 {
                0 => xyz(o, s.to_xyz()),
                1 => xyz(o, spd::spd_to_xyz_scalar(&s)),
                2 => {
                    #[cfg(target_feature = "avx")]
                    xyz(o, spd::spd_to_xyz_avx(&s));
                }
                3 => {
                    let p = Box::new(&*s * &*t);
                    for x in p.iter() {
                        o.f(*x as f64);
                    }
                }
                4 => o.n((s == t) as usize),
                5 => {
                    let k = Box::new(SPD::constant(s.values[0]));
                    for x in k.iter() {
                        o.f(*x as f64);
                    }
                }
                _ => {
                    let mut m = s.clone();
                    for (i, x) in m.iter_mut().enumerate() {
                        *x += i as f32;
                    }
                    for x in m.iter() {
                        o.f(*x as f64);
                    }
                }
            }
            unchanged("SPD operation", &(s.values.map(f32::to_bits), t.values.map(f32::to_bits)), &(k1, k2))?;
        }
        Call::Planes { width, m, n, seed } => {
            #[cfg(target_feature = "avx")]
            {
                let pl = |k: usize| -> Box<[f32]> { (0..(n[k] % 900) as usize).map(|i| (noise(seed.wrapping_add(k as u32), i) * 100.0) as f32).collect() };
                let (x, y, z) = (pl(0), pl(1), pl(2));
                let (r, g, bl) = crate::c_rest::planes_of(*width % 4, &mat::<f32>(m), &x, &y, &z);
                for v in [r, g, bl] {
                    o.n(v.len());
                    for x in v {
                        o.f(x as f64);
                    }
                }
                unchanged("plane conversion", &(x, y, z), &(pl(0), pl(1), pl(2)))?;
            }
            #[cfg(not(target_feature = "avx"))]
            let _ = (width, m, n, seed);
        }
        Call::Spectrum { s, ops } => {
            let mut cur = s.tame().vspd();
            o.spec(&cur);
            for (op, sh, k) in ops.iter().take(5) {
                if cur.len() > 3000 {
                    break;
                }
                let sh = sh.it();
                let keep = bits_of(&cur);
                let next = match op % 7 {
                    0 => cur.align(sh),
                    1 => {
                        // bounded number of wavelengths, even for shapes that run backwards
                        let n = match sh.interval {
                            Interval::Uniform(i) => (sh.end.min(cur.last().nm) - sh.start.max(cur.start())) / i,
                            Interval::Varying => 0.0,
                        };
                        if n.is_nan() || n > 1e5 {
                            continue;
                        }
                        cur.interpolate(sh)
                    }
                    2 => {
                        // bounded number of added samples
                        let i = match (cur.interval(), sh.interval) {
                            (Interval::Uniform(i), _) => i,
                            (_, Interval::Uniform(i)) => i,
                            _ => 1.0,
                        };
                        let span = (cur.first().nm - sh.start).abs().max((sh.end - cur.last().nm).abs());
                        if !(span / i.abs() < 1e5) {
                            continue;
                        }
                        cur.extrapolate(sh)
                    }
                    3 => cur.trim(sh),
                    4 => &cur * k.f(),
                    5 => &cur / k.f(),
                    _ => {
                        o.n(((&cur).approx_eq(&cur.clone(), F64Margin { epsilon: 1e-9, ulps: 4 })) as usize);
                        o.s(&format!("{:?}", cur));
                        cur.clone()
                    }
                };
                ensure!(bits_of(&cur) == keep, "a spectrum operation changed its input");
                o.spec(&next);
                cur = next;
            }
        }
        Call::ToXyz { s, il, obs } => {
            let (a, d) = (s.tame().vspd(), il.tame().vspd());
            let own;
            let c: &CMF = match obs {
                ObsArg::Cie => &cmf::CIE_1931_2_DEGREE,
                x => {
                    own = x.cmf();
                    &own
                }
            };
            let keep = (bits_of(&a), bits_of(&d), cmf_bits(c));
            let x = a.to_xyz(&d, c);
            o.all(&[x.x, x.y, x.z]);
            unchanged("to_xyz", &(bits_of(&a), bits_of(&d), cmf_bits(c)), &keep)?;
        }
        Call::CmfAlign { obs, sh } => {
            let c = obs.cmf();
            let keep = cmf_bits(&c);
            let s = c.shape();
            o.all(&[s.start, s.end]);
            let a = c.align(sh.it());
            o.spec(&a.x_bar);
            o.spec(&a.y_bar);
            o.spec(&a.z_bar);
            unchanged("CMF::align", &cmf_bits(&c), &keep)?;
        }
        Call::At { s, kind, x } => {
            let a = s.tame().vspd();
            let keep = bits_of(&a);
            let x = x.f();
            match kind % 4 {
                0 => o.f(InterpolatorSprague::<f64>::new(&a).evaluate(x)),
                1 => o.f(InterpolatorLinear::new(&a).evaluate(x)),
                2 => o.f(ExtrapolatorConstant::new(&a).evaluate(x)),
                _ => {
                    o.f(a.first().v);
                    o.f(a.last().v);
                    o.n(a.len());
                }
            }
            unchanged("interpolation", &bits_of(&a), &keep)?;
        }
        Call::Nit { s, obs } => {
            let (a, c) = (s.tame().vspd(), obs.cmf());
            let keep = bits_of(&a);
            if let Interval::Uniform(i) = a.interval() {
                if !((a.end() - a.start()).abs() / i.abs() < 1e5) {
                    return Ok(());
                }
            }
            o.f(spd_to_nit(&a, &c));
            unchanged("spd_to_nit", &bits_of(&a), &keep)?;
        }
        Call::Uplift { x } => o.spec(&uplifting::uplift_my(rgb_of::<f64>(v3(x)))),
        Call::Linspace { a, z, n } => {
            for x in linspace(a.f(), z.f(), *n as usize % 2000) {
                o.f(x);
            }
        }
        Call::Lagrange { interval, degree } => {
            let i = interval.f();
            if !(1.0..300.0).contains(&i) {
                return Ok(());
            }
            for r in lagrange_coefficients_astm_e2022(i, *degree as usize % 9) {
                o.all(&r);
            }
        }
        Call::Shape { s, single } => {
            let sh = s.it();
            if *single {
                let (a, e) = (sh.start as f32, sh.end as f32);
                let i = match sh.interval {
                    Interval::Uniform(i) => i as f32,
                    Interval::Varying => 1.0,
                };
                if ((e - a) / i).abs() < 1e4 {
                    for w in SpdShape::<f32>::new(a, e, i).iter() {
                        o.f(w as f64);
                    }
                }
            } else {
                for w in sh.iter() {
                    o.f(w);
                }
            }
            o.s(&format!("{}", sh));
            let (p, q) = (RGBf32::new(1.0, 2.0, 3.0), RGBf32::new(1.0, 2.0, 3.0));
            o.n(p.approx_eq(q, F32Margin { epsilon: 0.0, ulps: 1 }) as usize);
        }
        Call::Table { t } => {
            let sel: &VSPD = match t % 8 {
                0 => &illuminant::spd::D50,
                1 => &illuminant::spd::D65,
                2 => &cmf::CIE_1931_2_DEGREE.z_bar,
                3 => &colorchecker::SPECTRAL["blue_sky"],
                4 => &uplifting::MY_GREEN,
                5 => &uplifting::SMITS_CYAN,
                6 => &colorchecker::DARK_SKIN,
                _ => {
                    let (l, e) = tables::rgb_set("SRGB");
                    o.all(&rgb_d(l["orange"]));
                    o.all(&rgb_d(e["purple"]));
                    &illuminant::spd::D55
                }
            };
            o.spec(sel);
        }
    }
    Ok(())
}

fn bits_of(s: &VSPD) -> Vec<(u64, u64)> {
    crate::c_spec::bits(&of_vspd(s))
}

/// The result of a call: Some(bits), or None if the call was refused
pub type Res = Option<Vec<u64>>;

pub fn eval_call(c: &Call) -> Result<Res, String> {
    let mut o = Out::default();
    match guarded(|| eval_in(c, &mut o)) {
        Ok(Ok(())) => Ok(Some(o.0)),
        Ok(Err(e)) => Err(e),
        Err(_) => Ok(None),
    }
}

// ------------------------------------------------------------ generators

fn any_b() -> BoxedStrategy<B> {
    prop_oneof![
        12 => scalar(4.0).prop_map(b),
        2 => select(vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f32::MAX as f64, 1e39]).prop_map(b),
        1 => any::<u64>().prop_map(B),
    ]
    .boxed()
}

fn sane_b() -> BoxedStrategy<B> {
    prop_oneof![6 => unit().prop_map(b), 2 => scalar(2.0).prop_map(b)].boxed()
}

fn vec3(s: BoxedStrategy<B>) -> BoxedStrategy<V> {
    proptest::array::uniform3(s).boxed()
}

fn mat_arg(s: BoxedStrategy<B>) -> BoxedStrategy<Vec<B>> {
    prop_oneof![
        3 => proptest::collection::vec(s, 9..=9),
        1 => Just([3.2406, -1.5372, -0.4986, -0.9689, 1.8758, 0.0415, 0.0557, -0.2040, 1.0570].iter().map(|x| b(*x)).collect::<Vec<_>>()),
    ]
    .boxed()
}

fn wavelength(hostile: bool) -> BoxedStrategy<B> {
    let ok = prop_oneof![3 => (30u32..90).prop_map(|k| 10.0 * k as f64), 2 => 300.0f64..850.0].prop_map(b);
    if hostile {
        prop_oneof![6 => ok, 2 => any_b()].boxed()
    } else {
        ok.boxed()
    }
}

fn step(hostile: bool) -> BoxedStrategy<B> {
    let ok = select(vec![1.0, 5.0, 10.0, 2.0, 20.0, 0.5, 2.5, 7.0]).prop_map(b);
    if hostile {
        prop_oneof![6 => ok, 1 => any_b()].boxed()
    } else {
        ok.boxed()
    }
}

fn spec_arg(hostile: bool) -> BoxedStrategy<SpecArg> {
    let val = if hostile { any_b() } else { sane_b() };
    let bundled = any::<u8>().prop_map(SpecArg::Bundled);
    let n = if hostile { 0usize..45 } else { 2usize..45 };
    let even = (wavelength(hostile), step(hostile), proptest::collection::vec(val.clone(), n)).prop_map(|(start, interval, v)| SpecArg::Even { start, interval, v });
    if hostile {
        let any = proptest::collection::vec((wavelength(true), val.clone()), 0..30).prop_map(SpecArg::Any);
        let sorted = (proptest::collection::vec((wavelength(false), val), 0..30)).prop_map(|mut v| {
            v.sort_by(|a, b| a.0.f().partial_cmp(&b.0.f()).unwrap());
            SpecArg::Any(v)
        });
        prop_oneof![1 => bundled, 3 => even, 3 => any, 2 => sorted].boxed()
    } else {
        let sorted = (300.0f64..500.0, proptest::collection::vec((0.5f64..20.0, val), 2..40)).prop_map(|(s, g)| {
            let mut w = s;
            SpecArg::Any(
                g.into_iter()
                    .map(|(d, v)| {
                        w += d;
                        (b(w), v)
                    })
                    .collect(),
            )
        });
        prop_oneof![2 => bundled, 3 => even, 2 => sorted].boxed()
    }
}

fn obs_arg(hostile: bool) -> BoxedStrategy<ObsArg> {
    prop_oneof![
        2 => Just(ObsArg::Cie),
        2 => vec3(sane_b()).prop_map(ObsArg::Scaled),
        1 => (spec_arg(hostile), vec3(sane_b())).prop_map(|(s, k)| ObsArg::Of(s, k)),
    ]
    .boxed()
}

fn shape_arg(hostile: bool) -> BoxedStrategy<ShapeArg> {
    (wavelength(hostile), if hostile { (0u16..700).boxed() } else { (22u16..200).boxed() }, step(hostile), prop_oneof![if hostile { 9 } else { 99 } => Just(false), 1 => Just(true)])
        .prop_map(|(start, n, interval, varying)| ShapeArg { start, n, interval, varying })
        .boxed()
}

fn call(h: bool) -> BoxedStrategy<Call> {
    let f = move || if h { any_b() } else { sane_b() };
    let v = move || vec3(f());
    let m = move || mat_arg(f());
    let xy = move || -> BoxedStrategy<V> {
        let ok = white_xy().prop_map(|(x, y)| [b(x), b(y), b(1.0)]);
        if h {
            prop_oneof![2 => ok, 1 => v()].boxed()
        } else {
            ok.boxed()
        }
    };
    let s = any::<bool>;
    let k = any::<u8>;
    // the two lengths are often equal or close
    let lens = || prop_oneof![1 => proptest::array::uniform3(0u16..300), 1 => (0u16..300).prop_map(|n| [n; 3]), 1 => (0u16..300, proptest::array::uniform3(0u16..10)).prop_map(|(n, d)| [n + d[0], n + d[1], n + d[2]])];
    prop_oneof![
        2 => (s(), k(), v()).prop_map(|(single, f, x)| Call::Transfer { single, f, x }),
        2 => (s(), k(), s(), v()).prop_map(|(single, i, dec, x)| Call::Model { single, i, dec, x }),
        2 => (s(), proptest::array::uniform4(xy()), v()).prop_map(|(single, prim, x)| Call::Build { single, prim, x }),
        2 => (s(), k(), k(), k(), xy()).prop_map(|(single, kind, i, j, white)| Call::SpaceMatrix { single, kind, i, j, white }),
        2 => (s(), k(), m(), v()).prop_map(|(single, kind, m, x)| Call::Pixel { single, kind, m, x }),
        3 => (s(), k(), k(), k(), lens(), any::<u32>()).prop_map(|(single, i, j, out, n, seed)| Call::Slice { single, i, j, out, n: [n[0], n[1]], seed }),
        1 => (s(), m(), 0u16..400, any::<u32>()).prop_map(|(single, m, n, seed)| Call::Many { single, m, n, seed }),
        2 => (s(), k(), xy(), xy()).prop_map(|(single, kind, src, dst)| Call::Cat { single, kind, src, dst }),
        2 => (s(), k(), v(), xy()).prop_map(|(single, kind, x, w)| Call::Convert { single, kind, x, w }),
        1 => (s(), k(), v(), v()).prop_map(|(single, kind, a, b)| Call::Delta { single, kind, a, b }),
        1 => (s(), s(), v()).prop_map(|(single, wide, x)| Call::Quantise { single, wide, x }),
        1 => (s(), s(), any::<[u16; 3]>()).prop_map(|(single, wide, x)| Call::Dequantise { single, wide, x }),
        2 => (s(), k(), m(), m(), f()).prop_map(|(single, op, a, b, s)| Call::Matrix { single, op, a, b, s }),
        2 => (s(), k(), v(), v(), f()).prop_map(|(single, op, a, b, s)| Call::Vector { single, op, a, b, s }),
        if h { 2 } else { 1 } => (k(), s(), prop_oneof![2 => 0u64..40, 1 => any::<u64>()]).prop_map(|(kind, write, i)| Call::Index { kind, write, i }),
        if h { 4 } else { 1 } => (k(), 0u16..300, 0u8..4).prop_map(|(kind, n, offset)| Call::Cast { kind, n, offset }),
        3 => (k(), proptest::collection::vec(f(), 0..=40), proptest::collection::vec(f(), 0..=40)).prop_map(|(op, v, w)| Call::Fixed { op, v, w }),
        if h { 6 } else { 1 } => (k(), m(), lens(), any::<u32>()).prop_map(|(width, m, n, seed)| Call::Planes { width, m, n, seed }),
        5 => (spec_arg(h), proptest::collection::vec((k(), shape_arg(h), f()), 0..5)).prop_map(|(s, ops)| Call::Spectrum { s, ops }),
        2 => (spec_arg(h), spec_arg(h), obs_arg(h)).prop_map(|(s, il, obs)| Call::ToXyz { s, il, obs }),
        2 => (obs_arg(h), shape_arg(h)).prop_map(|(obs, sh)| Call::CmfAlign { obs, sh }),
        3 => (s(), proptest::array::uniform4(xy()), k(), k(), k(), lens(), any::<u32>()).prop_map(|(single, prim, curve, j, kind, n, seed)| Call::Custom { single, prim, curve, j, kind, n: [n[0], n[1]], seed }),
        3 => (spec_arg(h), k(), prop_oneof![3 => wavelength(h), 1 => f()]).prop_map(|(s, kind, x)| Call::At { s, kind, x }),
        1 => (spec_arg(h), obs_arg(h)).prop_map(|(s, obs)| Call::Nit { s, obs }),
        1 => v().prop_map(|x| Call::Uplift { x }),
        1 => (s(), prop_oneof![2 => (3000.0f64..26000.0).prop_map(b), 1 => f()]).prop_map(|(single, t)| Call::Cct { single, t }),
        1 => (f(), f(), 0u16..200).prop_map(|(a, z, n)| Call::Linspace { a, z, n }),
        1 => (prop_oneof![2 => (1u16..60).prop_map(f64::from), 1 => 1.0f64..60.0, 1 => (4u16..120).prop_map(|k| 0.5 * k as f64)].prop_map(b), k()).prop_map(|(interval, degree)| Call::Lagrange { interval, degree }),
        1 => (s(), shape_arg(h)).prop_map(|(single, s)| Call::Shape { single, s }),
        1 => k().prop_map(|t| Call::Table { t }),
    ]
    .boxed()
}

// ------------------------------------------------------------ C22

fn check_survives(c: &Vec<Call>, o: &mut Obs) -> CheckResult {
    for x in c {
        match eval_call(x)? {
            Some(_) => o.class("returned"),
            None => o.class("refused"),
        }
        o.nontrivial();
        o.class(match x {
            Call::Transfer { .. } | Call::Model { .. } | Call::Build { .. } | Call::Custom { .. } => "transfer and spaces",
            Call::SpaceMatrix { .. } | Call::Pixel { .. } | Call::Cat { .. } | Call::Convert { .. } | Call::Delta { .. } => "conversions",
            Call::Slice { .. } | Call::Many { .. } => "slices",
            Call::Quantise { .. } | Call::Dequantise { .. } => "quantisation",
            Call::Matrix { .. } | Call::Vector { .. } => "algebra",
            Call::Index { .. } => "indices",
            Call::Cast { .. } => "casts",
            Call::Fixed { .. } => "fixed spectra",
            Call::Planes { .. } => "planes",
            _ => "spectra",
        });
    }
    Ok(())
}

pub fn c22() -> Property {
    let one = |name, n, st: fn() -> BoxedStrategy<Call>| sub(name, n, 40, move || st().prop_map(|c| vec![c]), check_survives);
    Property {
        id: "C22",
        rule: "every call with generated arguments counts; it must return or refuse (panic) and leave its inputs unchanged, with the process running under AddressSanitizer",
        assumptions: &[
            "an access outside an allocation, a stack object or a static is what AddressSanitizer reports; reads that stay inside the same object are decided by the value properties",
            "argument sizes are bounded (spectra up to some thousand samples, slices up to 4200 elements)",
        ],
        subs: vec![
            sub("any call", 120_000, 60, || proptest::collection::vec(call(true), 1..4), check_survives),
            one("planes", 10_000, || {
                (any::<u8>(), mat_arg(sane_b()), prop_oneof![3 => len_upto(899).prop_map(|n| [n as u16; 3]), 2 => proptest::array::uniform3(0u16..80)], any::<u32>())
                    .prop_map(|(width, m, n, seed)| Call::Planes { width, m, n, seed })
                    .boxed()
            }),
            one("spectra", 40_000, || {
                prop_oneof![
                    (spec_arg(true), proptest::collection::vec((any::<u8>(), shape_arg(true), any_b()), 1..5)).prop_map(|(s, ops)| Call::Spectrum { s, ops }),
                    (spec_arg(true), any::<u8>(), prop_oneof![3 => wavelength(true), 1 => any_b()]).prop_map(|(s, kind, x)| Call::At { s, kind, x }),
                    (spec_arg(true), any::<u8>().prop_map(SpecArg::Bundled), obs_arg(true)).prop_map(|(s, il, obs)| Call::ToXyz { s, il, obs }),
                    (obs_arg(true), shape_arg(true)).prop_map(|(obs, sh)| Call::CmfAlign { obs, sh }),
                ]
                .boxed()
            }),
            enumerate(
                "every cast length",
                |_| 3 * 4 * 200,
                |i| {
                    vec![Call::Cast {
                        kind: (i % 3) as u8,
                        offset: (i / 3 % 4) as u8,
                        n: (i / 12) as u16,
                    }]
                },
                check_survives,
            ),
            enumerate(
                "every plane length",
                |_| 4 * 140,
                |i| {
                    vec![Call::Planes {
                        width: (i % 4) as u8,
                        m: vec![b(1.0); 9],
                        n: [(i / 4) as u16; 3],
                        seed: 1,
                    }]
                },
                check_survives,
            ),
            enumerate(
                "plane lengths that differ",
                |_| 4 * 18 * 18 * 18,
                |i| {
                    vec![Call::Planes {
                        width: (i % 4) as u8,
                        m: vec![b(1.0); 9],
                        n: [(i / 4 % 18) as u16, (i / 72 % 18) as u16, (i / 1296) as u16],
                        seed: 1,
                    }]
                },
                check_survives,
            ),
        ],
    }
}

// ------------------------------------------------------------ C24

/// Calls where later ones are small variations of earlier ones, so that
/// anything remembered between calls under too coarse a key shows
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Batch {
    base: Vec<Call>,
    /// (which call, which of its numbers, how to change it)
    vary: Vec<(u8, u16, u8)>,
}

fn leaves(v: &mut serde_json::Value, out: &mut Vec<*mut serde_json::Value>) {
    match v {
        serde_json::Value::Array(a) => a.iter_mut().for_each(|x| leaves(x, out)),
        serde_json::Value::Object(m) => m.values_mut().for_each(|x| leaves(x, out)),
        serde_json::Value::Number(_) | serde_json::Value::Bool(_) => out.push(v),
        _ => {}
    }
}

/// The call with one of its numbers changed
fn vary(c: &Call, which: u16, how: u8) -> Call {
    let mut v = serde_json::to_value(c).unwrap();
    let mut l = Vec::new();
    leaves(&mut v, &mut l);
    if l.is_empty() {
        return c.clone();
    }
    let n = l.len();
    let i = which as usize % n;
    // SAFETY: distinct nodes of the tree, which is not touched otherwise
    let (a, d) = unsafe { ((*l[i]).clone(), (*l[(i + 1) % n]).clone()) };
    let mut set = |k: usize, x: serde_json::Value| unsafe { *l[k] = x };
    match (how % 6, &a) {
        // swapped with its neighbour: same length, same sum
        (0, _) | (1, _) if a.is_u64() && d.is_u64() && a.as_u64().unwrap() > 70_000 && d.as_u64().unwrap() > 70_000 => {
            set(i, d);
            set((i + 1) % n, a);
        }
        (_, serde_json::Value::Bool(x)) => set(i, serde_json::Value::Bool(!x)),
        (h, _) => {
            let x = a.as_u64().unwrap();
            let y = if x > 1 << 40 {
                // bits of a float
                let f = f64::from_bits(x);
                match h {
                    2 => (f + 0.1).to_bits(),
                    3 => (f * 2.0).to_bits(),
                    4 => x + 1,
                    _ => (f * 0.9).to_bits(),
                }
            } else if h % 2 == 0 {
                x + 1
            } else {
                x.saturating_sub(1)
            };
            set(i, y.into());
        }
    }
    // a change that leaves the type (a small integer out of range) is dropped
    serde_json::from_value(v).unwrap_or_else(|_| c.clone())
}

impl Batch {
    fn calls(&self) -> Vec<Call> {
        let mut v = self.base.clone();
        for (c, w, h) in &self.vary {
            let i = *c as usize % v.len();
            let n = vary(&v[i], *w, *h);
            v.push(n);
        }
        v
    }
}

fn batch() -> BoxedStrategy<Batch> {
    (
        prop_oneof![3 => proptest::collection::vec(call(false), 1..5), 1 => proptest::collection::vec(call(true), 1..5)],
        proptest::collection::vec(any::<(u8, u16, u8)>(), 1..7),
    )
        .prop_map(|(base, vary)| Batch { base, vary })
        .boxed()
}

fn eval_all(c: &[Call]) -> Result<Vec<Res>, String> {
    c.iter().map(eval_call).collect()
}

fn differ(what: &str, calls: &[Call], a: &[Res], z: &[Res]) -> CheckResult {
    for i in 0..calls.len() {
        if a[i] != z[i] {
            let at = match (&a[i], &z[i]) {
                (Some(x), Some(y)) => x.iter().zip(y).position(|(p, q)| p != q).map(|k| format!("result {}: {:e} and {:e}", k, f64::from_bits(x[k]), f64::from_bits(y[k]))).unwrap_or_else(|| format!("{} and {} results", x.len(), y.len())),
                (x, y) => format!("refused: {} and {}", x.is_none(), y.is_none()),
            };
            return Err(format!("{}: {:?} gives different results ({})", what, calls[i], at));
        }
    }
    Ok(())
}

fn note(calls: &[Call], r: &[Res], o: &mut Obs) {
    o.nontrivial_if(calls.len() > 1 && r.iter().any(|x| x.is_some()));
    o.class_if(r.iter().any(|x| x.is_none()), "with a refused call");
}

fn check_order(c: &Batch, o: &mut Obs) -> CheckResult {
    let calls = c.calls();
    let a = eval_all(&calls)?;
    note(&calls, &a, o);
    let rev: Vec<Call> = calls.iter().rev().cloned().collect();
    let mut r = eval_all(&rev)?;
    r.reverse();
    differ("in reverse order", &calls, &a, &r)?;
    // each call twice in a row, then alternating with the first
    for (i, x) in calls.iter().enumerate() {
        let (p, q) = (eval_call(x)?, eval_call(x)?);
        ensure!(p == a[i] && q == a[i], "called twice in a row, {:?} gives different results", x);
        let _ = eval_call(&calls[0])?;
        let p = eval_call(x)?;
        ensure!(p == a[i], "after {:?}, {:?} gives a different result", calls[0], x);
    }
    // in a thread that has made no call yet
    let f = std::thread::scope(|s| s.spawn(|| eval_all(&rev)).join().map_err(|_| "thread died".to_string()))?;
    let mut f = f?;
    f.reverse();
    differ("on a fresh thread", &calls, &a, &f)
}

fn check_threads(c: &Batch, o: &mut Obs) -> CheckResult {
    let calls = c.calls();
    let a = eval_all(&calls)?;
    note(&calls, &a, o);
    let n = calls.len();
    let bar = Barrier::new(4);
    let rs: Vec<Result<Vec<Vec<Res>>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4)
            .map(|t| {
                let (calls, bar) = (&calls, &bar);
                s.spawn(move || {
                    bar.wait();
                    let mut all = Vec::new();
                    for round in 0..4 {
                        let mut r = vec![None; n];
                        for k in 0..n {
                            let i = if t % 2 == 0 { (k + t + round) % n } else { (2 * n - 1 - k + t) % n };
                            r[i] = eval_call(&calls[i])?;
                        }
                        all.push(r);
                    }
                    Ok(all)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    for r in rs {
        for x in r? {
            differ("on concurrent threads", &calls, &a, &x)?;
        }
    }
    Ok(())
}

/// `csverif calls IN OUT`
pub fn calls_main(inp: &str, out: &str) {
    install_quiet_panic_hook();
    let c: Vec<Call> = serde_json::from_str(&std::fs::read_to_string(inp).expect("in")).expect("calls");
    let r = eval_all(&c);
    std::fs::write(out, serde_json::to_string(&r).unwrap()).expect("out");
}

fn scratch() -> std::path::PathBuf {
    static D: OnceLock<std::path::PathBuf> = OnceLock::new();
    D.get_or_init(|| {
        let d = std::env::var_os("CSVERIF_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let _ = std::fs::create_dir_all(&d);
        d
    })
    .clone()
}

fn fresh_name() -> String {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    format!("{}/calls-{}-{}", scratch().display(), std::process::id(), N.fetch_add(1, Ordering::Relaxed))
}

fn child(args: &[&str], out: &str) -> Result<String, String> {
    let st = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .args(args)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .expect("spawn child");
    let r = std::fs::read_to_string(out);
    let _ = std::fs::remove_file(out);
    ensure!(st.success(), "a fresh process died ({})", st);
    Ok(r.expect("child left no result"))
}

fn check_process(c: &Batch, o: &mut Obs) -> CheckResult {
    let calls = c.calls();
    let a = eval_all(&calls)?;
    note(&calls, &a, o);
    let name = fresh_name();
    let (i, out) = (format!("{}.in", name), format!("{}.out", name));
    let rev: Vec<Call> = calls.iter().rev().cloned().collect();
    std::fs::write(&i, serde_json::to_string(&rev).unwrap()).expect("write calls");
    let r = child(&["calls", &i, &out], &out);
    let _ = std::fs::remove_file(&i);
    let r: Result<Vec<Res>, String> = serde_json::from_str(&r?).expect("result");
    let mut r = r?;
    r.reverse();
    differ("in a fresh process", &calls, &a, &r)
}

/// One call and a variation of it, made over and over by a fresh process
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Worn {
    call: Call,
    how: (u16, u8),
}

/// How often a call is repeated: past 2^16 where that is affordable
fn repeats(c: &Call) -> usize {
    match c {
        Call::Spectrum { .. } | Call::ToXyz { .. } | Call::CmfAlign { .. } | Call::Uplift { .. } | Call::Custom { .. } | Call::Nit { .. } | Call::Table { .. } => 300,
        Call::Slice { .. } | Call::Many { .. } | Call::Planes { .. } | Call::Cast { .. } | Call::At { .. } | Call::Linspace { .. } | Call::Shape { .. } | Call::Fixed { .. } => 5_000,
        _ => 70_000,
    }
}

/// `csverif worn IN OUT`
pub fn worn_main(inp: &str, out: &str) {
    install_quiet_panic_hook();
    let c: Vec<Call> = serde_json::from_str(&std::fs::read_to_string(inp).expect("in")).expect("calls");
    let go = || -> Result<(usize, bool), String> {
        let first: Vec<Res> = eval_all(&c)?;
        // unwinding is slow, and refused calls do no work that could wear out
        let refused = first.iter().any(|x| x.is_none());
        let n = if refused { 300 } else { c.iter().map(repeats).min().unwrap() };
        for i in 1..n {
            for (x, f) in c.iter().zip(&first) {
                let r = eval_call(x)?;
                if r != *f {
                    return Err(format!("call {} of {:?} gives another result than the first", i + 1, x));
                }
            }
        }
        Ok((n, !refused))
    };
    std::fs::write(out, serde_json::to_string(&go()).unwrap()).expect("out");
}

fn check_worn(c: &Worn, o: &mut Obs) -> CheckResult {
    let calls = vec![c.call.clone(), vary(&c.call, c.how.0, c.how.1)];
    let name = fresh_name();
    let (i, out) = (format!("{}.in", name), format!("{}.out", name));
    std::fs::write(&i, serde_json::to_string(&calls).unwrap()).expect("write calls");
    let r = child(&["worn", &i, &out], &out);
    let _ = std::fs::remove_file(&i);
    let r: Result<(usize, bool), String> = serde_json::from_str(&r?).expect("result");
    let (n, some) = r?;
    o.nontrivial_if(some);
    o.class_if(n > 1 << 16, "more than 65536 times");
    Ok(())
}

fn tables_hash(t: &tables::Tables) -> Vec<(String, u64)> {
    t.iter()
        .map(|(n, m)| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            for (k, v) in m {
                k.hash(&mut h);
                for x in v {
                    x.to_bits().hash(&mut h);
                }
            }
            (n.clone(), h.finish())
        })
        .collect()
}

fn check_tables(c: &Batch, o: &mut Obs) -> CheckResult {
    static T: OnceLock<Vec<(String, u64)>> = OnceLock::new();
    let want = T.get_or_init(|| tables_hash(&tables::all()));
    let calls = c.calls();
    let a = eval_all(&calls)?;
    note(&calls, &a, o);
    let got = tables_hash(&tables::all());
    for (w, g) in want.iter().zip(&got) {
        ensure!(w == g, "table {} has changed", w.0);
    }
    ensure!(want.len() == got.len(), "the set of tables has changed");
    let s = spaces_bits();
    static S: OnceLock<Vec<u64>> = OnceLock::new();
    ensure!(*S.get_or_init(spaces_bits) == s, "a bundled RGB space has changed");
    Ok(())
}

fn spaces_bits() -> Vec<u64> {
    fn go<T: Models>(o: &mut Out) {
        for i in 0..10 {
            if let Some(s) = T::model(i) {
                o.m(&s.xf_rgb_to_xyz);
                o.m(&s.xf_xyz_to_rgb);
                for c in [s.red, s.green, s.blue, s.white] {
                    o.all(&[c.x.d(), c.y.d(), c.Y.d()]);
                }
                o.all(&rgb_d(s.encode(rgb_of::<T>([0.01, 0.4, 0.9]))));
                o.all(&rgb_d(s.decode(rgb_of::<T>([0.01, 0.4, 0.9]))));
            }
        }
    }
    let mut o = Out::default();
    go::<f32>(&mut o);
    go::<f64>(&mut o);
    o.0
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FirstUse {
    seed: u32,
    /// threads all start with the same table, or each with another one
    same: bool,
}

/// `csverif first-use SEED SAME OUT`: a process in which several threads use
/// the bundled tables for the first time at the same moment
pub fn first_use_main(seed: u32, same: bool, out: &str) {
    install_quiet_panic_hook();
    let groups = touch_count();
    let bar = Barrier::new(8);
    let rs: Vec<Result<Vec<u64>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8usize)
            .map(|t| {
                let bar = &bar;
                s.spawn(move || {
                    let mut order: Vec<usize> = (0..groups).collect();
                    let key = if same { 0 } else { t as u32 };
                    for i in (1..groups).rev() {
                        order.swap(i, (noise(seed.wrapping_mul(31).wrapping_add(key), i) * (i + 1) as f64) as usize);
                    }
                    let mut r = vec![0; groups];
                    bar.wait();
                    for i in order {
                        r[i] = guarded(|| touch(i))?;
                    }
                    Ok(r)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    std::fs::write(out, serde_json::to_string(&rs).unwrap()).expect("out");
}

fn touch_count() -> usize {
    28 + tables::RGB_SETS.len()
}

/// Hash of one bundled table, read directly
fn touch(i: usize) -> u64 {
    let mut o = Out::default();
    let space = |o: &mut Out, m: &ColorSpaceRGB<f64>| {
        o.m(&m.xf_rgb_to_xyz);
        o.m(&m.xf_xyz_to_rgb);
        o.all(&rgb_d(m.encode(rgbf64(0.3, 0.001, 1.2))));
    };
    let space32 = |o: &mut Out, m: &ColorSpaceRGB<f32>| {
        o.m(&m.xf_rgb_to_xyz);
        o.m(&m.xf_xyz_to_rgb);
        o.all(&rgb_d(m.decode(rgbf32(0.3, 0.001, 1.2))));
    };
    match i {
        0 => o.spec(&illuminant::spd::D50),
        1 => o.spec(&illuminant::spd::D55),
        2 => o.spec(&illuminant::spd::D60),
        3 => o.spec(&illuminant::spd::D65),
        4 => {
            o.spec(&cmf::CIE_1931_2_DEGREE.x_bar);
            o.spec(&cmf::CIE_1931_2_DEGREE.y_bar);
            o.spec(&cmf::CIE_1931_2_DEGREE.z_bar);
        }
        5 => o.spec(&colorchecker::DARK_SKIN),
        6 => {
            for n in colorchecker::NAMES.iter() {
                o.spec(&colorchecker::SPECTRAL[*n]);
            }
        }
        7 => {
            for n in colorchecker::NAMES.iter() {
                o.all(&xyz_d(colorchecker::XYZ_D65[*n]));
            }
        }
        8 => {
            for n in colorchecker::NAMES.iter() {
                o.all(&rgb_d(colorchecker::ACES_FROM_SRGB[*n]));
            }
        }
        9 => {
            for n in colorchecker::NAMES.iter() {
                for x in spd::BABELCOLOR[*n].iter() {
                    o.f(*x as f64);
                }
            }
        }
        10 => {
            let x = SPD::constant(0.5).to_xyz();
            o.all(&[x.x as f64, x.y as f64, x.z as f64]);
        }
        11 => o.spec(&uplifting::MY_RED),
        12 => o.spec(&uplifting::MY_GREEN),
        13 => o.spec(&uplifting::MY_BLUE),
        14 => o.spec(&uplifting::SMITS_WHITE),
        15 => o.spec(&uplifting::SMITS_CYAN),
        16 => o.spec(&uplifting::SMITS_MAGENTA),
        17 => o.spec(&uplifting::SMITS_YELLOW),
        18 => o.spec(&uplifting::SMITS_RED),
        19 => o.spec(&uplifting::SMITS_GREEN),
        20 => o.spec(&uplifting::SMITS_BLUE),
        21 => {
            for k in 0..5 {
                space(&mut o, f64::model(k).unwrap());
            }
        }
        22 => {
            for k in 5..10 {
                space(&mut o, f64::model(k).unwrap());
            }
        }
        23 => {
            for k in 0..5 {
                space32(&mut o, f32::model(k).unwrap());
            }
        }
        24 => {
            for k in 5..9 {
                space32(&mut o, f32::model(k).unwrap());
            }
        }
        25 => {
            let x = colorchecker::SPECTRAL["cyan"].to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE);
            o.all(&[x.x, x.y, x.z]);
        }
        26 => {
            let x = uplifting::uplift_my(rgbf64(0.2, 0.5, 0.7)).to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE);
            o.all(&[x.x, x.y, x.z]);
        }
        27 => {
            let mut to = vec![rgbu8(0, 0, 0); 3];
            rgb_to_rgb(&color_space_rgb::model_f32::SRGB, &color_space_rgb::model_f32::ACES_CG, &pixels::<f32>(3, 5), &mut to);
            for p in to {
                o.all(&[p.r as f64, p.g as f64, p.b as f64]);
            }
        }
        i => {
            let (l, e) = tables::rgb_set(tables::RGB_SETS[i - 28]);
            for n in colorchecker::NAMES.iter() {
                o.all(&rgb_d(l[*n]));
                o.all(&rgb_d(e[*n]));
            }
        }
    }
    let mut h = std::collections::hash_map::DefaultHasher::new();
    o.0.hash(&mut h);
    h.finish()
}

fn check_first_use(c: &FirstUse, o: &mut Obs) -> CheckResult {
    static W: OnceLock<Vec<u64>> = OnceLock::new();
    let want = W.get_or_init(|| (0..touch_count()).map(touch).collect());
    let out = format!("{}.first", fresh_name());
    let r = child(&["first-use", &c.seed.to_string(), if c.same { "1" } else { "0" }, &out], &out)?;
    let r: Vec<Result<Vec<u64>, String>> = serde_json::from_str(&r).expect("result");
    o.nontrivial();
    o.class(if c.same { "same table first" } else { "different tables first" });
    ensure!(r.len() == 8, "{} threads reported", r.len());
    for (t, x) in r.into_iter().enumerate() {
        let x = x.map_err(|e| format!("first use on thread {}: {}", t, e))?;
        for i in 0..want.len() {
            ensure!(x[i] == want[i], "thread {} saw a different table {}", t, i);
        }
    }
    Ok(())
}

pub fn c24() -> Property {
    Property {
        id: "C24",
        rule: "a history counts when it has at least two calls, one of which returned; a repetition when neither call is refused; every first use counts",
        assumptions: &["schedules are those the operating system produces on 4 or 8 threads released by a barrier, not enumerated", "the order of first uses inside one process is generated; every process starts with no table built"],
        subs: vec![
            sub("order", 30_000, 40, batch, check_order),
            sub("threads", 10_000, 40, batch, check_threads),
            sub("fresh process", 1_200, 30, batch, check_process),
            sub("worn", 800, 30, || (call(false), any::<(u16, u8)>()).prop_map(|(call, how)| Worn { call, how }), check_worn),
            sub("tables", 1_500, 30, batch, check_tables),
            sub("first use", 400, 30, || (any::<u32>(), any::<bool>()).prop_map(|(seed, same)| FirstUse { seed, same }), check_first_use),
        ],
    }
}
