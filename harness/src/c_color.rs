//! C01-C09: transfer functions, RGB spaces, conversions, adaptation, xyY,
//! Lab, colour differences, quantisation.
use crate::engine::*;
use crate::fp::*;
use crate::gen::*;
use crate::refcolor::*;
use crate::{by_precision, ensure};
use colorspace::chromatic_adaptation as ca;
use colorspace::color_space_rgb::{model_f32, model_f64};
use colorspace::lab as labm;
use colorspace::rgb::RGBf;
use colorspace::xyz::XYZ;
use colorspace::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C01

fn enc_t<T: Fp>(c: Curve, x: T) -> T {
    match c {
        Curve::Srgb => encode::srgb_t(x),
        Curve::Bt709 => encode::bt709_t(x),
        Curve::Bt2020 => encode::bt2020_t(x),
        Curve::Linear => encode::linear_t(x),
        Curve::AlexaLogC3 => encode::alexa_logc_v3_t(x),
        Curve::Gamma(_) => unreachable!(),
    }
}
fn dec_t<T: Fp>(c: Curve, x: T) -> T {
    match c {
        Curve::Srgb => decode::srgb_t(x),
        Curve::Bt709 => decode::bt709_t(x),
        Curve::Bt2020 => decode::bt2020_t(x),
        Curve::Linear => decode::linear_t(x),
        Curve::AlexaLogC3 => decode::alexa_logc_v3_t(x),
        Curve::Gamma(_) => unreachable!(),
    }
}
fn enc3<T: Fp>(c: Curve, x: RGBf<T>) -> RGBf<T> {
    match c {
        Curve::Srgb => encode::srgb(x),
        Curve::Bt709 => encode::bt709(x),
        Curve::Bt2020 => encode::bt2020(x),
        Curve::Linear => encode::linear(x),
        Curve::AlexaLogC3 => encode::alexa_logc_v3(x),
        Curve::Gamma(_) => unreachable!(),
    }
}
fn dec3<T: Fp>(c: Curve, x: RGBf<T>) -> RGBf<T> {
    match c {
        Curve::Srgb => decode::srgb(x),
        Curve::Bt709 => decode::bt709(x),
        Curve::Bt2020 => decode::bt2020(x),
        Curve::Linear => decode::linear(x),
        Curve::AlexaLogC3 => decode::alexa_logc_v3(x),
        Curve::Gamma(_) => unreachable!(),
    }
}

pub fn rgb_of<T: Fp>(x: [f64; 3]) -> RGBf<T> {
    RGBf::new(T::of(x[0]), T::of(x[1]), T::of(x[2]))
}
pub fn rgb_d<T: Fp>(x: RGBf<T>) -> [f64; 3] {
    [x.r.d(), x.g.d(), x.b.d()]
}
pub fn xyz_of<T: Fp>(x: [f64; 3]) -> XYZ<T> {
    XYZ::new(T::of(x[0]), T::of(x[1]), T::of(x[2]))
}
pub fn xyz_d<T: Fp>(x: XYZ<T>) -> [f64; 3] {
    [x.x.d(), x.y.d(), x.z.d()]
}

const THR: &[f64] = &[
    0.0031308, 0.04045, 0.040449936, 0.018, 0.081, 0.08125, 0.010591, 0.149658, 0.0, 1.0, 0.5, 0.092809, 0.385537, 0.18, 0.391,
];

fn chan() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => 0.0f64..=1.0,
        3 => near(THR),
        2 => -0.05f64..0.25,
        2 => (0u32..=255).prop_map(|k| k as f64 / 255.0),
        1 => (0u32..=65535).prop_map(|k| k as f64 / 65535.0),
        2 => -2.0f64..4.0,
        2 => (sign(), logu(-20.0, 12.0)).prop_map(|(s, x)| s * x),
        1 => select(POOL),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tf {
    single: bool,
    curve: usize,
    x: [f64; 3],
}

fn tf_strategy() -> BoxedStrategy<Tf> {
    (any::<bool>(), 0usize..5, triple(chan()))
        .prop_map(|(single, curve, x)| Tf { single, curve, x })
        .boxed()
}

fn tf_formula(c: &Tf, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &Tf, o: &mut Obs) -> CheckResult {
        let k = CURVES[c.curve];
        let x = rnd3::<T>(c.x);
        o.nontrivial_if(x.iter().any(|v| *v != 0.0));
        o.class_if(x.iter().any(|v| *v < 0.0), "negative");
        o.class_if(x.iter().any(|v| *v > 1.0), "above one");
        if let Some(t) = k.enc_thr() {
            o.class_if(x.iter().any(|v| (v - t).abs() < 1e-4), "near threshold");
        }
        let rgb = rgb_of::<T>(x);
        let e = rgb_d(enc3(k, rgb));
        let d = rgb_d(dec3(k, rgb));
        for i in 0..3 {
            let want = k.enc(x[i], T::EPS);
            ensure!(
                admits(e[i], want, T::MAX),
                "{:?} encode of channel {} of {:?} is {:e}, published formula {:?}",
                k, i, x, e[i], want
            );
            let s = enc_t(k, T::of(x[i])).d();
            ensure!(admits(s, want, T::MAX), "{:?} scalar encode({:e}) is {:e}, published formula {:?}", k, x[i], s, want);
            let want = k.dec(x[i], T::EPS);
            // an encoded value far above one may overflow the type on the way
            if want.0.v.abs() < T::MAX / 100.0 {
                ensure!(
                    admits(d[i], want, T::MAX),
                    "{:?} decode of channel {} of {:?} is {:e}, published formula {:?}",
                    k, i, x, d[i], want
                );
                let s = dec_t(k, T::of(x[i])).d();
                ensure!(admits(s, want, T::MAX), "{:?} scalar decode({:e}) is {:e}, published formula {:?}", k, x[i], s, want);
            }
        }
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

fn tf_roundtrip(c: &Tf, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &Tf, o: &mut Obs) -> CheckResult {
        let k = CURVES[c.curve];
        let x = rnd3::<T>(c.x);
        // encoded domain where decode does not leave the type's range
        let limit = if k == Curve::AlexaLogC3 { 5.0 } else { 1e9 };
        o.nontrivial_if(x.iter().any(|v| *v != 0.0));
        let back = rgb_d(dec3(k, enc3(k, rgb_of::<T>(x))));
        for i in 0..3 {
            let e = k.enc(x[i], T::EPS);
            // error of encoding amplified by the slope of the decode
            let tol = match k {
                Curve::Linear => 0.0,
                Curve::AlexaLogC3 => {
                    let l = (x[i].abs() * 5.56 + 1.0).log10();
                    T::EPS * (60.0 * (1.0 + l) * (x[i].abs() + 0.02))
                        + if (x[i] - 0.010591).abs() < 1e-5 { 1e-6 } else { 0.0 }
                }
                _ => {
                    let lnx = if x[i] > 0.0 { x[i].ln().abs() } else { 0.0 };
                    T::EPS * (40.0 + 40.0 * lnx) * x[i].abs() + if (x[i] - 0.0031308).abs() < 1e-6 { 1e-8 } else { 0.0 }
                }
            };
            if e.0.v.abs() < 1e30 {
                ensure!(
                    close(back[i], x[i], tol),
                    "{:?}: decode(encode({:e})) = {:e} (tolerance {:e})",
                    k, x[i], back[i], tol
                );
            }
        }
        // encoded -> linear -> encoded
        let f = [x[0].clamp(-limit, limit), x[1].clamp(-limit, limit), x[2].clamp(-limit, limit)];
        let f = rnd3::<T>(f);
        let back = rgb_d(enc3(k, dec3(k, rgb_of::<T>(f))));
        for i in 0..3 {
            let gap = match k {
                Curve::Bt709 | Curve::Bt2020 if f[i] > 0.0809 && f[i] < 0.0815 => 4e-4,
                Curve::Srgb if (f[i] - 0.04045).abs() < 1e-4 => 1e-6,
                Curve::AlexaLogC3 if (f[i] - 0.149658).abs() < 1e-4 => 1e-6,
                _ => 0.0,
            };
            let ln = if f[i] > 0.0 { f[i].ln().abs() } else { 0.0 };
            let tol = gap
                + match k {
                    Curve::Linear => 0.0,
                    _ => T::EPS * (60.0 + 40.0 * ln) * (f[i].abs() + 0.1),
                };
            ensure!(
                close(back[i], f[i], tol),
                "{:?}: encode(decode({:e})) = {:e} (tolerance {:e})",
                k, f[i], back[i], tol
            );
        }
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mono {
    single: bool,
    curve: usize,
    x: f64,
    dx: f64,
}

fn mono_strategy() -> BoxedStrategy<Mono> {
    (
        any::<bool>(),
        0usize..5,
        chan(),
        prop_oneof![logu(-16.0, 1.0), 0.0f64..1.0],
    )
        .prop_map(|(single, curve, x, dx)| Mono {
            single,
            curve,
            x: x.clamp(-1e6, 1e6),
            dx,
        })
        .boxed()
}

fn tf_monotone(c: &Mono, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &Mono, o: &mut Obs) -> CheckResult {
        let k = CURVES[c.curve];
        let a = T::of(c.x);
        let b = T::of(c.x + c.dx * (1.0 + c.x.abs()));
        o.nontrivial_if(b > a);
        for (f, what) in [(enc_t as fn(Curve, T) -> T, "encode"), (dec_t as fn(Curve, T) -> T, "decode")] {
            if what == "decode" && k == Curve::AlexaLogC3 && b.d() > 5.0 {
                continue;
            }
            let (fa, fb) = (f(k, a).d(), f(k, b).d());
            // LogC's published constants leave a 2e-7 mismatch at its cut
            let slack = if k == Curve::AlexaLogC3 || k == Curve::Srgb { 5e-7 } else { 0.0 };
            // BT.709's three-digit constants leave 1e-4 at the decode join
            let join = matches!(k, Curve::Bt709 | Curve::Bt2020) && what == "decode" && a.d() < 0.0811 && b.d() > 0.0809;
            let slack = if join { 1.2e-4 } else { slack };
            let tol = slack + 8.0 * T::EPS * (fa.abs() + 0.1);
            ensure!(fb >= fa - tol, "{:?} {} decreases: f({:e})={:e} > f({:e})={:e}", k, what, a.d(), fa, b.d(), fb);
        }
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        rule: "Cases are RGB triples (or scalar pairs) of finite channel values x curve x precision: uniform in and around [0,1], within ulps of every published threshold, k/255 and k/65535 codes, negative, log-uniform magnitudes. Non-trivial: at least one non-zero channel (formula, round trip) or two different inputs (monotonicity).",
        assumptions: &["libm powf/log10 accurate to a few ulps", "either branch is accepted within 4 ulps of a threshold"],
        subs: vec![
            sub("formula", 1_200_000, 30, tf_strategy, tf_formula),
            sub("roundtrip", 800_000, 30, tf_strategy, tf_roundtrip),
            sub("monotone", 600_000, 30, mono_strategy, tf_monotone),
        ],
    }
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SpaceDef {
    pub prim: [[f64; 2]; 3],
    pub white: [f64; 2],
}

fn tri_area(p: &[[f64; 2]; 3]) -> f64 {
    ((p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[2][0] - p[0][0]) * (p[1][1] - p[0][1])).abs()
}

/// Non-degenerate primaries and a white strictly inside their triangle.
/// Constructed, not filtered: the white is a barycentric mix; the triangle is
/// a regular one stretched and jittered.
pub fn space_def() -> BoxedStrategy<SpaceDef> {
    let real = select(vec![
        [[0.64, 0.33], [0.30, 0.60], [0.15, 0.06]],
        [[0.708, 0.292], [0.170, 0.797], [0.131, 0.046]],
        [[0.680, 0.320], [0.265, 0.690], [0.150, 0.060]],
        [[0.7347, 0.2653], [0.0, 1.0], [0.0001, -0.077]],
        [[0.713, 0.293], [0.165, 0.830], [0.128, 0.044]],
        [[0.6840, 0.3130], [0.2210, 0.8480], [0.0861, -0.1020]],
        [[1.0, 0.0], [0.0, 1.0], [0.0, 0.0]],
        [[0.67, 0.33], [0.21, 0.71], [0.14, 0.08]],
    ]);
    let jitter = (-0.08f64..0.08, -0.08f64..0.08, -0.08f64..0.08, -0.08f64..0.08, -0.08f64..0.08, -0.08f64..0.08);
    let prim = prop_oneof![
        2 => real.clone(),
        6 => (real, jitter).prop_map(|(p, j)| {
            [
                [p[0][0] + j.0, p[0][1] + j.1],
                [p[1][0] + j.2, p[1][1] + j.3],
                [p[2][0] + j.4, p[2][1] + j.5],
            ]
        }),
        // permuted primaries: nothing says red has to be reddish
    ];
    let bary = prop_oneof![
        1 => Just([1.0, 1.0, 1.0]),
        4 => (0.1f64..1.0, 0.1f64..1.0, 0.1f64..1.0).prop_map(|(a, b, c)| [a, b, c]),
    ];
    (prim, bary, 0usize..6, proptest::option::weighted(0.3, white_xy()))
        .prop_map(|(p, b, perm, w)| {
            let idx = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][perm];
            let prim = [p[idx[0]], p[idx[1]], p[idx[2]]];
            let s = b[0] + b[1] + b[2];
            let mut white = [0.0; 2];
            for i in 0..3 {
                white[0] += prim[i][0] * b[i] / s;
                white[1] += prim[i][1] * b[i] / s;
            }
            if let Some(w) = w {
                // a standard white when it mixes the primaries well
                let cand = [w.0, w.1];
                let m = rgb_to_xyz_from_primaries(&prim, cand);
                let ok = (0..3).all(|j| {
                    let sj = m[0][j] + m[1][j] + m[2][j];
                    sj.is_finite() && sj > 0.05 && sj < 20.0
                });
                if ok {
                    white = cand;
                }
            }
            if white[1] < 0.05 {
                // keep luminance well defined
                white[1] = 0.05 + white[1].abs();
            }
            SpaceDef { prim, white }
        })
        .boxed()
}

/// Any triangle and any white with a share of each primary, which may be
/// negative (white outside the triangle) or imaginary (negative y)
fn wild_space_def() -> BoxedStrategy<SpaceDef> {
    let coord = || prop_oneof![8 => -0.5f64..1.3, 1 => Just(0.0), 1 => Just(1.0), 1 => (-3i32..=6).prop_map(|k| k as f64 * 0.25)];
    let share = || prop_oneof![4 => 0.1f64..1.0, 2 => -1.0f64..-0.1, 1 => (sign(), logu(-8.0, -1.0)).prop_map(|(s, x)| s * x)];
    (proptest::array::uniform3((coord(), coord())), share(), share(), share())
        .prop_map(|(p, a, b, c)| {
            let prim = [[p[0].0, p[0].1], [p[1].0, p[1].1], [p[2].0, p[2].1]];
            let mut s = a + b + c;
            if s.abs() < 0.2 {
                s = 0.2;
            }
            let w = [a / s, b / s, 1.0 - a / s - b / s];
            let mut white = [0.0; 2];
            for i in 0..3 {
                white[0] += prim[i][0] * w[i];
                white[1] += prim[i][1] * w[i];
            }
            SpaceDef { prim, white }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Build {
    single: bool,
    def: SpaceDef,
    y: [f64; 4],
    m: [f64; 9],
    n: [f64; 9],
    color: [f64; 3],
    /// gain and offset of the two supplied transfer functions
    tf: [f64; 4],
}

fn sp() -> BoxedStrategy<f64> {
    proptest::sample::select(vec![0.0, -0.0, 1.0, -1.0, 1e30, -1e30, 65504.0, 65536.0, -65536.0]).boxed()
}

fn build_strategy() -> BoxedStrategy<Build> {
    (
        any::<bool>(),
        prop_oneof![2 => space_def(), 1 => wild_space_def()],
        prop_oneof![Just([1.0; 4]), proptest::array::uniform4(0.1f64..3.0)],
        proptest::array::uniform9(scalar(1.0)),
        proptest::array::uniform9(scalar(1.0)),
        triple(prop_oneof![2 => unit(), 2 => scalar(10.0), 1 => sp()].boxed()),
        proptest::array::uniform4(scalar(3.0)),
    )
        .prop_map(|(single, def, y, m, n, color, tf)| Build {
            single,
            def,
            y,
            m,
            n,
            color,
            tf,
        })
        .boxed()
}

fn build_check(c: &Build, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &Build, o: &mut Obs) -> CheckResult {
        let prim = [
            [rnd::<T>(c.def.prim[0][0]), rnd::<T>(c.def.prim[0][1])],
            [rnd::<T>(c.def.prim[1][0]), rnd::<T>(c.def.prim[1][1])],
            [rnd::<T>(c.def.prim[2][0]), rnd::<T>(c.def.prim[2][1])],
        ];
        let white = [rnd::<T>(c.def.white[0]), rnd::<T>(c.def.white[1])];
        if tri_area(&prim) < 0.02 || white[1].abs() < 0.04 {
            return Ok(());
        }
        let want = rgb_to_xyz_from_primaries(&prim, white);
        let sj = |j: usize| want[0][j] + want[1][j] + want[2][j];
        if !(0..3).all(|j| sj(j).abs() > 1e-9 && sj(j).abs() < 50.0) {
            return Ok(()); // the white does not mix all three primaries
        }
        let want_inv = m3_inv(&want);
        let cond = m3_norm(&want) * m3_norm(&want_inv);
        if !(cond * T::EPS < 1e-3) {
            return Ok(()); // nor to this precision
        }
        o.class_if((0..3).any(|j| sj(j).abs() < 1e-3), "hardly any of a primary");
        o.nontrivial();
        o.class_if(prim.iter().any(|p| p[0] == 0.0 || p[1] == 0.0), "zero coordinate");
        o.class_if(prim.iter().any(|p| p[1] < 0.0), "imaginary primary");
        o.class_if(white[1] < 0.0, "imaginary white");
        o.class_if((0..3).any(|j| sj(j) < 0.0), "white outside the triangle");
        o.class_if(T::SINGLE, "f32");
        let xyy = |p: [f64; 2], y: f64| XYY::<T>::new(T::of(p[0]), T::of(p[1]), T::of(y));
        let (r, g, b, w) = (xyy(prim[0], c.y[0]), xyy(prim[1], c.y[1]), xyy(prim[2], c.y[2]), xyy(white, c.y[3]));
        // two affine functions that also move the channels around
        let tf = c.tf.map(|k| T::of(k));
        let fe = move |c: RGBf<T>| RGBf::new(c.g * tf[0] + tf[1], c.b * tf[0], c.r + tf[1]);
        let fd = move |c: RGBf<T>| RGBf::new(c.b * tf[2], c.r * tf[2] + tf[3], c.g - tf[3]);
        let oe: color_space_rgb::TransferFunction<T> = Box::new(fe);
        let eo: color_space_rgb::TransferFunction<T> = Box::new(fd);
        let cs = ColorSpaceRGB::<T>::new(r, g, b, w, oe, eo);
        let fw = m3_from(&cs.xf_rgb_to_xyz);
        let bw = m3_from(&cs.xf_xyz_to_rgb);
        let tol = 64.0 * T::EPS * cond * (1.0 + m3_norm(&want));
        for i in 0..3 {
            for j in 0..3 {
                ensure!(close(fw[i][j], want[i][j], tol), "RGB->XYZ[{}][{}] is {:e}, expected {:e} for {:?} {:?}", i, j, fw[i][j], want[i][j], prim, white);
                let tol = 64.0 * T::EPS * cond * (1.0 + m3_norm(&want_inv));
                ensure!(close(bw[i][j], want_inv[i][j], tol), "XYZ->RGB[{}][{}] is {:e}, expected {:e} for {:?} {:?}", i, j, bw[i][j], want_inv[i][j], prim, white);
            }
        }
        // observable form: white and primaries
        let w_xyz = m3_vec(&fw, [1.0; 3]);
        ensure!(close(w_xyz[1], 1.0, tol), "RGB white has luminance {:e}", w_xyz[1]);
        let s = w_xyz[0] + w_xyz[1] + w_xyz[2];
        ensure!(
            close(w_xyz[0] / s, white[0], tol) && close(w_xyz[1] / s, white[1], tol),
            "RGB (1,1,1) has chromaticity {:?}, white is {:?}",
            [w_xyz[0] / s, w_xyz[1] / s],
            white
        );
        for j in 0..3 {
            let s = fw[0][j] + fw[1][j] + fw[2][j];
            ensure!(
                close(fw[0][j] / s, prim[j][0], tol / sj(j).abs().min(1.0)) && close(fw[1][j] / s, prim[j][1], tol / sj(j).abs().min(1.0)),
                "primary {} has chromaticity {:?}, expected {:?}",
                j,
                [fw[0][j] / s, fw[1][j] / s],
                prim[j]
            );
        }
        let prod = m3_mul(&fw, &bw);
        for i in 0..3 {
            for j in 0..3 {
                ensure!(close(prod[i][j], ID3[i][j], 64.0 * T::EPS * cond * cond.max(1.0)), "RGB->XYZ->RGB is not the identity: {:?}", prod);
            }
        }
        let same = |a: RGBf<T>, b: RGBf<T>| {
            let (a, b) = (rgb_d(a), rgb_d(b));
            (0..3).all(|i| a[i] == b[i] || (a[i].is_nan() && b[i].is_nan()))
        };
        let keep = |cs: &ColorSpaceRGB<T>| -> CheckResult {
            ensure!(cs.red == r && cs.green == g && cs.blue == b && cs.white == w, "chromaticities not kept");
            let col = rgb_of::<T>(c.color);
            let e = cs.encode(col);
            ensure!(same(e, fe(col)), "encode does not use the supplied OETF");
            let d = cs.decode(col);
            ensure!(same(d, fd(col)), "decode does not use the supplied EOTF");
            Ok(())
        };
        keep(&cs)?;
        // explicit matrices
        let mk = |a: &[f64; 9]| {
            let mut x = [T::zero(); 9];
            for i in 0..9 {
                x[i] = T::of(a[i]);
            }
            Matrix33::new(x)
        };
        let (m, n) = (mk(&c.m), mk(&c.n));
        let oe: color_space_rgb::TransferFunction<T> = Box::new(fe);
        let eo: color_space_rgb::TransferFunction<T> = Box::new(fd);
        let cs = ColorSpaceRGB::<T>::new_with_specified_matrices(r, g, b, w, m, n, oe, eo);
        keep(&cs)?;
        ensure!(cs.xf_xyz_to_rgb == m && cs.xf_rgb_to_xyz == n, "specified matrices not kept");
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        rule: "Cases are primaries (published sets, jittered, permuted, with zero and negative coordinates, or arbitrary triangles) and a white that is a mix of them (inside or outside the triangle) or a standard white, x precision. Non-trivial: triangle area > 0.01 and every primary has a non-negligible share in white.",
        assumptions: &["tolerance 64 eps x condition number of the space's matrix"],
        subs: vec![sub("build", 400_000, 30, build_strategy, build_check)],
    }
}

// ---------------------------------------------------------------- C03

pub trait Models: Fp {
    fn model(i: usize) -> Option<&'static ColorSpaceRGB<Self>>;
}
impl Models for f64 {
    fn model(i: usize) -> Option<&'static ColorSpaceRGB<f64>> {
        Some(match i {
            0 => &model_f64::SRGB,
            1 => &model_f64::ITUR_BT709,
            2 => &model_f64::ITUR_BT2020,
            3 => &model_f64::DCI_P3,
            4 => &model_f64::DCI_P3_D65,
            5 => &model_f64::ACES,
            6 => &model_f64::ACES_CG,
            7 => &model_f64::ADOBE_RGB_1998,
            8 => &model_f64::ALEXA_WIDE_GAMUT,
            9 => &model_f64::SRGB_DRV,
            _ => return None,
        })
    }
}
impl Models for f32 {
    fn model(i: usize) -> Option<&'static ColorSpaceRGB<f32>> {
        Some(match i {
            0 => &model_f32::SRGB,
            1 => &model_f32::ITUR_BT709,
            2 => &model_f32::ITUR_BT2020,
            3 => &model_f32::DCI_P3,
            4 => &model_f32::DCI_P3_D65,
            5 => &model_f32::ACES,
            6 => &model_f32::ACES_CG,
            7 => &model_f32::ADOBE_RGB_1998,
            8 => &model_f32::ALEXA_WIDE_GAMUT,
            _ => return None,
        })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ModelCase {
    single: bool,
    space: usize,
    c: [f64; 3],
}

fn model_def(c: &ModelCase, o: &mut Obs) -> CheckResult {
    fn go<T: Models>(c: &ModelCase, o: &mut Obs) -> CheckResult {
        let refs = ref_spaces();
        let r = &refs[c.space];
        let cs = match T::model(c.space) {
            Some(m) => m,
            None => return Ok(()),
        };
        o.nontrivial();
        for (got, want, what) in [
            (cs.red, r.prim[0], "red"),
            (cs.green, r.prim[1], "green"),
            (cs.blue, r.prim[2], "blue"),
            (cs.white, r.white, "white"),
        ] {
            ensure!(
                close(got.x.d(), want[0], 2.0 * T::EPS) && close(got.y.d(), want[1], 2.0 * T::EPS) && close(got.Y.d(), 1.0, T::EPS),
                "{}: {} is {:?}, published {:?}",
                r.name, what, got, want
            );
        }
        for (got, want, what) in [
            (m3_from(&cs.xf_rgb_to_xyz), r.rgb_to_xyz(), "RGB->XYZ"),
            (m3_from(&cs.xf_xyz_to_rgb), r.xyz_to_rgb(), "XYZ->RGB"),
        ] {
            let tol = if r.mats.is_some() { 4.0 * T::EPS } else { 64.0 * T::EPS };
            for i in 0..3 {
                for j in 0..3 {
                    ensure!(
                        close(got[i][j], want[i][j], tol * (1.0 + want[i][j].abs())),
                        "{} ({}): {}[{}][{}] is {:e}, published {:e}",
                        r.name, if T::SINGLE { "f32" } else { "f64" }, what, i, j, got[i][j], want[i][j]
                    );
                }
            }
        }
        // the two matrices are inverse within their published rounding
        let p = m3_mul(&m3_from(&cs.xf_rgb_to_xyz), &m3_from(&cs.xf_xyz_to_rgb));
        let tol = if r.mats.is_some() { 5e-4 } else { 64.0 * T::EPS * 10.0 };
        for i in 0..3 {
            for j in 0..3 {
                ensure!(close(p[i][j], ID3[i][j], tol), "{}: matrices are not inverse: {:?}", r.name, p);
            }
        }
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

fn model_color(c: &ModelCase, o: &mut Obs) -> CheckResult {
    fn go<T: Models>(c: &ModelCase, o: &mut Obs) -> CheckResult {
        let refs = ref_spaces();
        let r = &refs[c.space];
        let cs = match T::model(c.space) {
            Some(m) => m,
            None => return Ok(()),
        };
        let mut x = rnd3::<T>(c.c);
        if let Curve::Gamma(_) = r.curve {
            // pure power curves are defined for non-negative values
            x = [x[0].abs(), x[1].abs(), x[2].abs()];
        }
        o.nontrivial_if(x.iter().any(|v| *v != 0.0));
        o.class(r.name);
        let e = rgb_d(cs.encode(rgb_of::<T>(x)));
        let d = rgb_d(cs.decode(rgb_of::<T>(x)));
        for i in 0..3 {
            let want = r.curve.enc(x[i], T::EPS);
            ensure!(admits(e[i], want, T::MAX), "{} encode({:e}) is {:e}, published {:?}", r.name, x[i], e[i], want);
            let want = r.curve.dec(x[i], T::EPS);
            if want.0.v.abs() < T::MAX / 100.0 {
                ensure!(admits(d[i], want, T::MAX), "{} decode({:e}) is {:e}, published {:?}", r.name, x[i], d[i], want);
            }
        }
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

fn model_precisions(c: &ModelCase, o: &mut Obs) -> CheckResult {
    let (a, b) = match (f32::model(c.space), f64::model(c.space)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(()),
    };
    let refs = ref_spaces();
    let r = &refs[c.space];
    let mut x = rnd3::<f32>(c.c);
    for v in x.iter_mut() {
        *v = v.clamp(-10.0, 10.0);
    }
    if let Curve::Gamma(_) = r.curve {
        x = [x[0].abs(), x[1].abs(), x[2].abs()];
    }
    let x = rnd3::<f32>(x);
    o.nontrivial_if(x.iter().any(|v| *v != 0.0));
    // linear RGB -> XYZ and back in each precision
    let mx = x.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let x32 = xyz_d(rgb_to_xyz(&a.xf_rgb_to_xyz, rgb_of::<f32>(x)));
    let x64 = xyz_d(rgb_to_xyz(&b.xf_rgb_to_xyz, rgb_of::<f64>(x)));
    ensure!(close3(x32, x64, 4e-6 * 100.0 * mx * 2.0), "{}: RGB->XYZ differs between precisions: {:?} vs {:?}", r.name, x32, x64);
    let xyz = [x[0] * 100.0, x[1] * 100.0, x[2] * 100.0];
    let x32 = rgb_d(xyz_to_rgb(&a.xf_xyz_to_rgb, xyz_of::<f32>(xyz)));
    let x64 = rgb_d(xyz_to_rgb(&b.xf_xyz_to_rgb, xyz_of::<f64>(xyz)));
    ensure!(close3(x32, x64, 4e-6 * mx * 6.0), "{}: XYZ->RGB differs between precisions: {:?} vs {:?}", r.name, x32, x64);
    Ok(())
}

fn model_strategy() -> BoxedStrategy<ModelCase> {
    (any::<bool>(), 0usize..10, triple(chan()))
        .prop_map(|(single, space, c)| ModelCase { single, space, c })
        .boxed()
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        rule: "Definition: exhaustive over shipped spaces x precision. Colours: RGB triples as in C01 for every space x precision. Non-trivial: the space exists in that precision and at least one channel is non-zero.",
        assumptions: &["published matrices are those of the documents cited in the source", "pure power curves are only claimed for non-negative values"],
        subs: vec![
            enumerate(
                "definition",
                |_| 20,
                |i| ModelCase {
                    single: i >= 10,
                    space: (i % 10) as usize,
                    c: [0.0; 3],
                },
                model_def,
            ),
            sub("transfer", 800_000, 30, model_strategy, model_color),
            sub("precisions", 400_000, 30, model_strategy, model_precisions),
        ],
    }
}

// ---------------------------------------------------------------- C04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SpaceSel {
    Builtin(usize),
    Custom(SpaceDef, usize),
}

impl SpaceSel {
    pub fn reference<T: Fp>(&self) -> RefSpace {
        match self {
            SpaceSel::Builtin(i) => ref_spaces()[*i].clone(),
            SpaceSel::Custom(d, curve) => RefSpace {
                name: "custom",
                prim: [
                    [rnd::<T>(d.prim[0][0]), rnd::<T>(d.prim[0][1])],
                    [rnd::<T>(d.prim[1][0]), rnd::<T>(d.prim[1][1])],
                    [rnd::<T>(d.prim[2][0]), rnd::<T>(d.prim[2][1])],
                ],
                white: [rnd::<T>(d.white[0]), rnd::<T>(d.white[1])],
                mats: None,
                curve: CURVES[*curve],
            },
        }
    }
    pub fn ok(&self) -> bool {
        match self {
            SpaceSel::Builtin(_) => true,
            SpaceSel::Custom(d, _) => {
                let m = rgb_to_xyz_from_primaries(&d.prim, d.white);
                tri_area(&d.prim) > 0.05 && (0..3).all(|j| (m[0][j] + m[1][j] + m[2][j]).abs() > 0.05 && (m[0][j] + m[1][j] + m[2][j]).abs() < 20.0) && {
                    // a white with well defined CAT02 responses
                    let w = xyy_to_xyz(d.white[0], d.white[1], 1.0);
                    m3_vec(&Cat::Cat02.cone(), w).iter().all(|v| *v > 2.0)
                }
            }
        }
    }
}

/// Keeps either a static or a freshly built space alive
pub enum Held<T: Fp> {
    Static(&'static ColorSpaceRGB<T>),
    Owned(Box<ColorSpaceRGB<T>>),
}
impl<T: Fp> Held<T> {
    pub fn get(&self) -> &ColorSpaceRGB<T> {
        match self {
            Held::Static(s) => s,
            Held::Owned(b) => b,
        }
    }
}

pub fn hold<T: Models>(s: &SpaceSel) -> Option<Held<T>> {
    match s {
        SpaceSel::Builtin(i) => T::model(*i).map(Held::Static),
        SpaceSel::Custom(d, curve) => {
            let xyy = |p: [f64; 2]| XYY::<T>::new(T::of(p[0]), T::of(p[1]), T::one());
            let k = CURVES[*curve];
            Some(Held::Owned(Box::new(ColorSpaceRGB::new(
                xyy(d.prim[0]),
                xyy(d.prim[1]),
                xyy(d.prim[2]),
                xyy(d.white),
                Box::new(move |c| enc3(k, c)),
                Box::new(move |c| dec3(k, c)),
            ))))
        }
    }
}

pub fn space_sel() -> BoxedStrategy<SpaceSel> {
    prop_oneof![
        4 => (0usize..10).prop_map(SpaceSel::Builtin),
        1 => (space_def(), 0usize..5).prop_map(|(d, c)| SpaceSel::Custom(d, c)),
    ]
    .boxed()
}

/// A space that shares all but one coordinate, one primary or the curve with another
fn sibling(s: &SpaceSel, what: u8, by: f64) -> SpaceSel {
    let r = s.reference::<f64>();
    let mut d = SpaceDef {
        prim: r.prim,
        white: r.white,
    };
    let mut curve = CURVES.iter().position(|c| *c == r.curve).unwrap_or(0);
    match what {
        0 => d.white[0] += by,
        1 => d.white[1] += by,
        2..=7 => d.prim[(what as usize - 2) / 2][(what as usize) % 2] += by,
        8 => {}
        _ => curve = (curve + 1) % CURVES.len(),
    }
    SpaceSel::Custom(d, curve)
}

/// Two spaces: independent, equal or nearly so
pub fn space_pair() -> BoxedStrategy<(SpaceSel, SpaceSel)> {
    prop_oneof![
        8 => (space_sel(), space_sel()),
        1 => space_sel().prop_map(|s| (s.clone(), s)),
        2 => (space_sel(), 0u8..10, sign(), logu(-5.0, -1.3), any::<bool>()).prop_map(|(s, what, sg, by, swap)| {
            let t = sibling(&s, what, sg * by);
            if swap { (t, s) } else { (s, t) }
        }),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conv {
    single: bool,
    from: SpaceSel,
    to: SpaceSel,
    px: Vec<[f64; 3]>,
    out_len: usize,
    out_kind: u8,
}

fn conv_strategy(max: usize) -> BoxedStrategy<Conv> {
    let px = prop_oneof![
        3 => unit(),
        1 => prop_oneof![near(THR), -0.2f64..1.5, (0u32..=255).prop_map(|k| k as f64 / 255.0), (sign(), logu(0.0, 6.0)).prop_map(|(s, x)| s * x)],
    ]
    .boxed();
    (
        any::<bool>(),
        space_pair(),
        len_upto(max).prop_flat_map(move |n| proptest::collection::vec(triple(px.clone()), n)),
        prop_oneof![3 => Just(-1i64), 2 => -5i64..6, 1 => 0i64..60],
        0u8..4,
    )
        .prop_map(|(single, (from, to), px, extra, out_kind)| {
            let out_len = if extra == -1 { px.len() } else { (px.len() as i64 + extra).max(0) as usize };
            Conv {
                single,
                from,
                to,
                px,
                out_len,
                out_kind,
            }
        })
        .boxed()
}

pub struct Pipe {
    pub m: M3,
    pub mabs: M3,
    pub from: Curve,
    pub to: Curve,
}

pub fn abs3(m: &M3) -> M3 {
    let mut r = *m;
    for a in r.iter_mut() {
        for b in a.iter_mut() {
            *b = b.abs();
        }
    }
    r
}

/// Magnitudes entering a CAT02 matrix: the scale of its rounding errors
pub fn cat_abs(src: [f64; 3], dst: [f64; 3]) -> M3 {
    let cone = Cat::Cat02.cone();
    let (s, d) = (m3_vec(&cone, src), m3_vec(&cone, dst));
    let mut sc = abs3(&cone);
    for i in 0..3 {
        for j in 0..3 {
            sc[i][j] *= (d[i] / s[i]).abs();
        }
    }
    m3_mul(&abs3(&m3_inv(&cone)), &sc)
}

/// Scale of the rounding errors of a product of (derived) matrices
pub fn noise(a: &M3, cat: &M3, b: &M3) -> M3 {
    let mut r = m3_mul(&abs3(a), &m3_mul(cat, &abs3(b)));
    let n = 0.02 * m3_norm(a) * m3_norm(b) * m3_norm(cat);
    for x in r.iter_mut() {
        for y in x.iter_mut() {
            *y += n;
        }
    }
    r
}

pub fn pipe(f: &RefSpace, t: &RefSpace) -> Pipe {
    let wf = xyy_to_xyz(f.white[0], f.white[1], 1.0);
    let wt = xyy_to_xyz(t.white[0], t.white[1], 1.0);
    let cat = if wf == wt { ID3 } else { Cat::Cat02.matrix(wf, wt) };
    let a = t.xyz_to_rgb();
    let b = f.rgb_to_xyz();
    let mabs = noise(&a, &cat_abs(wf, wt), &b);
    Pipe {
        m: m3_mul(&a, &m3_mul(&cat, &b)),
        mabs,
        from: f.curve,
        to: t.curve,
    }
}

/// Admissible interval of each linear channel, and whether the result may be
/// undefined (a power curve of a value that may be negative)
fn pipe_eval(p: &Pipe, x: [f64; 3], eps: f64) -> [(f64, f64, bool); 3] {
    let mut lin = [0.0; 3];
    let mut lin_err = [0.0; 3];
    for i in 0..3 {
        let (a, b) = p.from.dec(x[i], eps);
        let (lo, hi) = match b {
            Some(b) => ((a.v - a.tol).min(b.v - b.tol), (a.v + a.tol).max(b.v + b.tol)),
            None => (a.v - a.tol, a.v + a.tol),
        };
        lin[i] = (lo + hi) / 2.0;
        lin_err[i] = (hi - lo) / 2.0;
    }
    let v = m3_vec(&p.m, lin);
    let scale = m3_vec(&p.mabs, [lin[0].abs(), lin[1].abs(), lin[2].abs()]);
    let prop = m3_vec(&abs3(&p.m), lin_err);
    let mut out = [(0.0, 0.0, false); 3];
    for i in 0..3 {
        let d = 256.0 * eps * scale[i] + prop[i] * 1.01;
        let (lo, hi) = (v[i] - d, v[i] + d);
        let nan_ok = matches!(p.to, Curve::Gamma(_)) && lo < 0.0;
        let (a, b) = p.to.enc_range(lo, hi, eps);
        out[i] = (a, b, nan_ok);
    }
    out
}

fn conv_check(c: &Conv, o: &mut Obs) -> CheckResult {
    fn go<T: Models>(c: &Conv, o: &mut Obs) -> CheckResult
    where
        RGBf32: From<RGBf<T>>,
        RGBu8: From<RGBf<T>>,
        RGBu16: From<RGBf<T>>,
    {
        if !c.from.ok() || !c.to.ok() {
            return Ok(());
        }
        let (f, t) = match (hold::<T>(&c.from), hold::<T>(&c.to)) {
            (Some(f), Some(t)) => (f, t),
            _ => return Ok(()),
        };
        let (f, t) = (f.get(), t.get());
        let (rf, rt) = (c.from.reference::<T>(), c.to.reference::<T>());
        let p = pipe(&rf, &rt);
        let mut px: Vec<[f64; 3]> = c.px.iter().map(|x| rnd3::<T>(*x)).collect();
        if let Curve::Gamma(_) = rf.curve {
            for x in px.iter_mut() {
                *x = [x[0].abs(), x[1].abs(), x[2].abs()];
            }
        }
        if let Curve::AlexaLogC3 = rf.curve {
            // an exponential of a large code has no finite value
            for x in px.iter_mut() {
                *x = x.map(|v| rnd::<T>(v.clamp(-3.0, 3.0)));
            }
        }
        let input: Vec<RGBf<T>> = px.iter().map(|x| rgb_of::<T>(*x)).collect();
        let n = px.len().min(c.out_len);
        o.nontrivial_if(n > 0);
        o.class_if(c.out_len < px.len(), "output shorter");
        o.class_if(c.out_len > px.len(), "output longer");
        o.class_if(n > 64, "more than 64 pixels");
        o.class_if(rf.white == rt.white, "same white");

        // a sentinel that conversion results never equal by accident
        fn run<T: Models, U: From<RGBf<T>> + Copy + PartialEq>(
            f: &ColorSpaceRGB<T>,
            t: &ColorSpaceRGB<T>,
            input: &[RGBf<T>],
            out_len: usize,
            sentinel: U,
        ) -> Result<Vec<U>, String> {
            let mut out = vec![sentinel; out_len];
            let before: Vec<[u64; 3]> = input.iter().map(|p| [p.r.d().to_bits(), p.g.d().to_bits(), p.b.d().to_bits()]).collect();
            let cnt = rgb_to_rgb(f, t, input, &mut out);
            let n = input.len().min(out_len);
            ensure!(cnt == n, "rgb_to_rgb returned {} for {} in / {} out", cnt, input.len(), out_len);
            for (i, v) in out.iter().enumerate().skip(n) {
                ensure!(*v == sentinel, "output element {} beyond the converted {} was overwritten", i, n);
            }
            for (i, p) in input.iter().enumerate() {
                ensure!(before[i] == [p.r.d().to_bits(), p.g.d().to_bits(), p.b.d().to_bits()], "input changed");
            }
            out.truncate(n);
            Ok(out)
        }
        let q = |x: f64, max: f64| if x.is_nan() { 0.0 } else { (x.clamp(0.0, 1.0) * max).round() };
        let chk = |i: usize, got: [f64; 3], max: Option<f64>| -> CheckResult {
            let want = pipe_eval(&p, px[i], T::EPS);
            for k in 0..3 {
                let (lo, hi, nan_ok) = want[k];
                let ok = match max {
                    None => (got[k] >= lo && got[k] <= hi) || (nan_ok && got[k].is_nan()),
                    Some(m) => {
                        let e = 2.0 * T::EPS;
                        (got[k] >= q(lo - e, m) && got[k] <= q(hi + e, m)) || (nan_ok && got[k] == 0.0)
                    }
                };
                ensure!(
                    ok,
                    "{} -> {} pixel {} {:?} channel {}: got {:e}, expected in [{:e}, {:e}]{}",
                    rf.name, rt.name, i, px[i], k, got[k], lo, hi,
                    max.map(|m| format!(" x {}", m)).unwrap_or_default()
                );
            }
            Ok(())
        };
        match c.out_kind {
            0 => {
                let out = run::<T, RGBf<T>>(f, t, &input, c.out_len, rgb_of::<T>([7.25e5, -3.5e5, 1.75e5]))?;
                for (i, v) in out.iter().enumerate() {
                    chk(i, rgb_d(*v), None)?;
                }
            }
            1 => {
                let out = run::<T, RGBu8>(f, t, &input, c.out_len, rgbu8(37, 201, 113))?;
                for (i, v) in out.iter().enumerate() {
                    chk(i, [v.r as f64, v.g as f64, v.b as f64], Some(255.0))?;
                }
            }
            2 => {
                let out = run::<T, RGBu16>(f, t, &input, c.out_len, rgbu16(3701, 20103, 11307))?;
                for (i, v) in out.iter().enumerate() {
                    chk(i, [v.r as f64, v.g as f64, v.b as f64], Some(65535.0))?;
                }
            }
            _ => {
                let out = run::<T, RGBf<T>>(f, t, &input, c.out_len, rgb_of::<T>([7.25e5, -3.5e5, 1.75e5]))?;
                // same results one pixel at a time
                for (i, v) in out.iter().enumerate() {
                    chk(i, rgb_d(*v), None)?;
                    let one = run::<T, RGBf<T>>(f, t, &input[i..i + 1], 1, rgb_of::<T>([0.0; 3]))?[0];
                    let (a, b) = (rgb_d(*v), rgb_d(one));
                    for k in 0..3 {
                        ensure!(
                            (a[k].is_nan() && b[k].is_nan()) || close(a[k], b[k], 8.0 * T::EPS * (a[k].abs() + 1e-3)),
                            "pixel {} depends on its neighbours: {:?} vs {:?} alone",
                            i, a, b
                        );
                    }
                }
            }
        }
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mats {
    single: bool,
    a: SpaceSel,
    b: SpaceSel,
    c: SpaceSel,
    white: (f64, f64),
    white_y: f64,
    white_of: u8,
    colors: Vec<[f64; 3]>,
}

fn mats_strategy() -> BoxedStrategy<Mats> {
    (
        any::<bool>(),
        space_pair(),
        space_sel(),
        white_xy(),
        prop_oneof![6 => Just(1.0), 2 => 0.2f64..5.0, 1 => logu(-6.0, 6.0)],
        0u8..4,
        len_upto(600).prop_flat_map(|n| proptest::collection::vec(triple(prop_oneof![4 => unit(), 2 => scalar(3.0), 1 => scalar(12.0)].boxed()), n)),
    )
        .prop_map(|(single, (a, b), c, white, white_y, white_of, colors)| Mats {
            single,
            a,
            b,
            c,
            white,
            white_y,
            white_of,
            colors,
        })
        .boxed()
}

fn mats_check(c: &Mats, o: &mut Obs) -> CheckResult {
    fn go<T: Models>(c: &Mats, o: &mut Obs) -> CheckResult {
        if !c.a.ok() || !c.b.ok() || !c.c.ok() {
            return Ok(());
        }
        let (a, b, d) = match (hold::<T>(&c.a), hold::<T>(&c.b), hold::<T>(&c.c)) {
            (Some(a), Some(b), Some(d)) => (a, b, d),
            _ => return Ok(()),
        };
        let (a, b, d) = (a.get(), b.get(), d.get());
        let (ra, rb, rc) = (c.a.reference::<T>(), c.b.reference::<T>(), c.c.reference::<T>());
        o.nontrivial();
        let mclose = |got: &Matrix33<T>, want: &M3, scale: &M3, what: &str| -> CheckResult {
            let g = m3_from(got);
            for i in 0..3 {
                for j in 0..3 {
                    let tol = 256.0 * T::EPS * scale[i][j].abs().max(1e-3 * m3_norm(scale));
                    ensure!(close(g[i][j], want[i][j], tol), "{}: [{}][{}] is {:e}, expected {:e}", what, i, j, g[i][j], want[i][j]);
                }
            }
            Ok(())
        };
        // rgb_to_rgb_matrix against the reference pipeline
        let p = pipe(&ra, &rb);
        mclose(&rgb_to_rgb_matrix(a, b), &p.m, &p.mabs, &format!("{} -> {} matrix", ra.name, rb.name))?;
        // The laws below are exact for derived spaces. A published matrix is
        // rounded, so the law holds as far as it does for the published values.
        // white to white
        let w = m3_vec(&m3_from(&rgb_to_rgb_matrix(a, b)), [1.0; 3]);
        let published = ra.mats.is_some() || rb.mats.is_some();
        let wref = m3_vec(&p.m, [1.0; 3]);
        let sc = m3_vec(&p.mabs, [1.0; 3]);
        for i in 0..3 {
            let rounding = if published { (wref[i] - 1.0).abs() } else { 0.0 };
            ensure!(close(w[i], 1.0, rounding + 256.0 * T::EPS * sc[i]), "{} -> {}: white maps to {:?}", ra.name, rb.name, w);
        }
        // there and back, and through a third space
        let ab = m3_from(&rgb_to_rgb_matrix(a, b));
        let ba = m3_from(&rgb_to_rgb_matrix(b, a));
        let id = m3_mul(&ba, &ab);
        let back = pipe(&rb, &ra);
        let amp = m3_norm(&m3_mul(&back.mabs, &p.mabs));
        let idref = m3_mul(&back.m, &p.m);
        for i in 0..3 {
            for j in 0..3 {
                let rounding = if published { (idref[i][j] - ID3[i][j]).abs() } else { 0.0 };
                ensure!(
                    close(id[i][j], ID3[i][j], rounding + 512.0 * T::EPS * amp),
                    "{} -> {} -> back is not the identity: {:?}",
                    ra.name, rb.name, id
                );
            }
        }
        let bc = m3_from(&rgb_to_rgb_matrix(b, d));
        let ac = m3_from(&rgb_to_rgb_matrix(a, d));
        let abc = m3_mul(&bc, &ab);
        let pbc = pipe(&rb, &rc);
        let amp = m3_norm(&m3_mul(&pbc.mabs, &p.mabs));
        let published = published || rc.mats.is_some();
        let abcref = m3_mul(&pbc.m, &p.m);
        let acref = pipe(&ra, &rc).m;
        for i in 0..3 {
            for j in 0..3 {
                let rounding = if published { (abcref[i][j] - acref[i][j]).abs() } else { 0.0 };
                ensure!(
                    close(abc[i][j], ac[i][j], rounding + 512.0 * T::EPS * amp),
                    "{} -> {} -> {} differs from the direct conversion: {:?} vs {:?}",
                    ra.name, rb.name, rc.name, abc, ac
                );
            }
        }
        // XYZ with an arbitrary reference white
        let (wx, wy) = match c.white_of {
            0 => (ra.white[0], ra.white[1]),
            1 => (rb.white[0], rb.white[1]),
            _ => c.white,
        };
        let wy_lum = if c.white_of < 2 { 1.0 } else { rnd::<T>(c.white_y) };
        let (wx, wy) = (rnd::<T>(wx), rnd::<T>(wy));
        o.class_if((wx, wy) == (ra.white[0], ra.white[1]), "space's own white");
        let white = XYY::<T>::new(T::of(wx), T::of(wy), T::of(wy_lum));
        let wxyz = xyy_to_xyz(wx, wy, wy_lum);
        if ![Cat::Cat02, Cat::Bradford].iter().all(|k| m3_vec(&k.cone(), wxyz).iter().all(|v| *v > 5.0 * wy_lum)) {
            return Ok(()); // no well defined adaptation
        }
        let own = xyy_to_xyz(rnd::<T>(ra.white[0]), rnd::<T>(ra.white[1]), 1.0);
        let cat_in = Cat::Cat02.matrix(wxyz, own);
        let cat_out = Cat::Cat02.matrix(own, wxyz);
        let to_rgb = m3_mul(&ra.xyz_to_rgb(), &cat_in);
        let to_rgb_s = noise(&ra.xyz_to_rgb(), &cat_abs(wxyz, own), &ID3);
        let from_rgb = m3_mul(&cat_out, &ra.rgb_to_xyz());
        let from_rgb_s = noise(&ID3, &cat_abs(own, wxyz), &ra.rgb_to_xyz());
        let mx = xyz_to_rgb_matrix(white, a);
        let mr = rgb_to_xyz_matrix(white, a);
        mclose(&mx, &to_rgb, &to_rgb_s, &format!("XYZ({},{}) -> {} matrix", wx, wy, ra.name))?;
        mclose(&mr, &from_rgb, &from_rgb_s, &format!("{} -> XYZ({},{}) matrix", ra.name, wx, wy))?;
        let cat: Matrix33<T> = ca::bradford(white, a.white);
        let with = xyz_to_rgb_matrix_with_cat(&cat, a);
        let bcat = Cat::Bradford.matrix(wxyz, own);
        mclose(
            &with,
            &m3_mul(&ra.xyz_to_rgb(), &bcat),
            &noise(&ra.xyz_to_rgb(), &cat_abs(wxyz, own), &ID3),
            "xyz_to_rgb_matrix_with_cat(bradford)",
        )?;
        // colours on the 0-100 scale, singly and as slices
        let m = m3_from(&mx);
        let r = m3_from(&mr);
        let xyzs: Vec<XYZ<T>> = c.colors.iter().map(|v| xyz_of::<T>([v[0] * 100.0, v[1] * 100.0, v[2] * 100.0])).collect();
        let many = xyz_slice_to_rgb(&mx, &xyzs);
        ensure!(many.len() == xyzs.len(), "xyz_slice_to_rgb returned {} for {}", many.len(), xyzs.len());
        o.class_if(xyzs.len() > 64, "more than 64 colours");
        for (i, v) in xyzs.iter().enumerate() {
            let xv = xyz_d(*v);
            let want = m3_vec(&m, [xv[0] / 100.0, xv[1] / 100.0, xv[2] / 100.0]);
            let sc = m3_abs_vec(&m, [xv[0] / 100.0, xv[1] / 100.0, xv[2] / 100.0]);
            let one = rgb_d(xyz_to_rgb(&mx, *v));
            let el = rgb_d(many[i]);
            for k in 0..3 {
                let tol = 16.0 * T::EPS * sc[k];
                ensure!(close(one[k], want[k], tol), "xyz_to_rgb({:?}) channel {} is {:e}, expected {:e}", xv, k, one[k], want[k]);
                ensure!(close(el[k], want[k], tol), "xyz_slice_to_rgb element {} of {} channel {} is {:e}, expected {:e}", i, xyzs.len(), k, el[k], want[k]);
            }
            let rgb = rnd3::<T>(c.colors[i]);
            let want = m3_vec(&r, rgb);
            let sc = m3_abs_vec(&r, rgb);
            let got = xyz_d(rgb_to_xyz(&mr, rgb_of::<T>(rgb)));
            for k in 0..3 {
                ensure!(
                    close(got[k], 100.0 * want[k], 1600.0 * T::EPS * sc[k]),
                    "rgb_to_xyz({:?}) component {} is {:e}, expected {:e}",
                    rgb, k, got[k], 100.0 * want[k]
                );
            }
        }
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    single: bool,
    from: usize,
    to: usize,
    len: usize,
    out_len: usize,
    seed: u32,
    kind: u8,
}

/// Long slices: every element equals the single-colour conversion
fn huge_check(c: &Huge, o: &mut Obs) -> CheckResult {
    fn go<T: Models>(c: &Huge, o: &mut Obs) -> CheckResult
    where
        RGBu8: From<RGBf<T>>,
        RGBu16: From<RGBf<T>>,
    {
        let (f, t) = match (T::model(c.from), T::model(c.to)) {
            (Some(f), Some(t)) => (f, t),
            _ => return Ok(()),
        };
        o.nontrivial();
        let px: Vec<RGBf<T>> = (0..c.len).map(|i| rgb_of::<T>([0, 1, 2].map(|k| crate::c_rest::noise(c.seed.wrapping_add(k), i)))).collect();
        fn pixels<T: Models, U: From<RGBf<T>> + Copy + PartialEq + std::fmt::Debug>(f: &ColorSpaceRGB<T>, t: &ColorSpaceRGB<T>, px: &[RGBf<T>], out_len: usize, s: U, near: &dyn Fn(U, U) -> bool) -> CheckResult {
            let mut out = vec![s; out_len];
            let n = rgb_to_rgb(f, t, px, &mut out);
            ensure!(n == px.len().min(out_len), "rgb_to_rgb returned {} for {} in / {} out", n, px.len(), out_len);
            let m = rgb_to_rgb_matrix(f, t);
            for i in 0..n {
                let want: U = t.encode(m * f.decode(px[i])).into();
                ensure!(near(out[i], want), "element {} of {}: {:?} instead of {:?}", i, n, out[i], want);
            }
            ensure!(out[n..].iter().all(|v| *v == s), "elements beyond the converted {} were overwritten", n);
            Ok(())
        }
        let fl = |a: f64, b: f64| (a.is_nan() && b.is_nan()) || close(a, b, 64.0 * T::EPS * (1.0 + b.abs())) || (a - b).abs() < 1e-3 && b.abs() < 1e-2;
        let float = |a: RGBf<T>, b: RGBf<T>| {
            let (a, b) = (rgb_d(a), rgb_d(b));
            (0..3).all(|k| fl(a[k], b[k]) || a[k].is_nan() != b[k].is_nan() && a[k].abs().max(b[k].abs()).max(0.0) < 1e-2)
        };
        match c.kind {
            0 => pixels::<T, RGBf<T>>(f, t, &px, c.out_len, rgb_of::<T>([7.25e5, -3.5e5, 1.75e5]), &float),
            1 => pixels::<T, RGBu8>(f, t, &px, c.out_len, rgbu8(37, 201, 113), &|a, b| (a.r.abs_diff(b.r)).max(a.g.abs_diff(b.g)).max(a.b.abs_diff(b.b)) <= 1),
            _ => {
                let m = xyz_to_rgb_matrix(f.white, t);
                let x: Vec<XYZ<T>> = px.iter().map(|p| XYZ::new(p.r, p.g, p.b) * T::of(100.0)).collect();
                let got = xyz_slice_to_rgb(&m, &x);
                ensure!(got.len() == x.len(), "xyz_slice_to_rgb returned {} for {}", got.len(), x.len());
                for i in 0..x.len() {
                    let (a, b) = (rgb_d(got[i]), rgb_d(xyz_to_rgb(&m, x[i])));
                    ensure!((0..3).all(|k| close(a[k], b[k], 64.0 * T::EPS * (1.0 + b[k].abs()))), "xyz_slice_to_rgb element {} of {} is {:?} instead of {:?}", i, x.len(), a, b);
                }
                Ok(())
            }
        }
    }
    by_precision!(c.single, go, c, o)
}

pub fn c04() -> Property {
    Property {
        id: "C04",
        rule: "Slice cases: pair of spaces (9 built-in, derived sRGB, or generated primaries) x pixel vector (0..4097 pixels, in the long cases up to a million) x output length x output pixel type x precision. Matrix cases: three spaces, a reference white and 0..600 colours. Non-trivial: at least one pixel converted / all spaces well defined.",
        assumptions: &[
            "interval oracle: the reference value with its propagated rounding error is encoded; results inside are correct",
            "white-to-white and round-trip hold for spaces with published (rounded) matrices as far as they do for the published values",
            "pure power curves are only claimed for non-negative values",
        ],
        subs: vec![
            sub("slices", 30_000, 20, || conv_strategy(4097), conv_check),
            sub("pixels", 500_000, 20, || conv_strategy(4), conv_check),
            sub("matrices", 60_000, 20, mats_strategy, mats_check),
            sub(
                "long slices",
                96,
                10,
                || {
                    (any::<bool>(), 0usize..10, 0usize..10, huge_len(), prop_oneof![3 => Just(0i64), 1 => -3i64..4, 1 => Just(-66_000i64), 1 => Just(66_000i64)], any::<u32>(), 0u8..3).prop_map(|(single, from, to, len, extra, seed, kind)| Huge {
                        single,
                        from,
                        to,
                        len,
                        out_len: (len as i64 + extra).max(0) as usize,
                        seed,
                        kind,
                    })
                },
                huge_check,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CatCase {
    single: bool,
    cat: usize,
    /// whites as XYZ on the 0-100 scale
    w: [[f64; 3]; 3],
    /// 0: pass XYZ, 1: pass xyY for both, 2: mixed
    form: u8,
    scale: f64,
    color: [f64; 3],
}

fn any_white() -> BoxedStrategy<[f64; 3]> {
    prop_oneof![
        4 => (white_xy(), prop_oneof![4 => Just(1.0), 2 => 0.05f64..10.0, 1 => logu(-6.0, 6.0)]).prop_map(|((x, y), l)| xyy_to_xyz(x, y, l)),
        // positive responses in the cone space of a random method
        2 => (0usize..3, proptest::array::uniform3(logu(0.5, 2.5))).prop_map(|(k, r)| m3_vec(&m3_inv(&CATS[k].cone()), r)),
        // responses of either sign (imaginary whites)
        1 => (0usize..3, proptest::array::uniform3((sign(), logu(0.5, 2.5)).prop_map(|(s, r)| s * r))).prop_map(|(k, r)| m3_vec(&m3_inv(&CATS[k].cone()), r)),
        1 => proptest::array::uniform3(50.0f64..150.0),
        1 => Just([100.0, 100.0, 100.0]),
    ]
    .boxed()
}

fn cat_strategy() -> BoxedStrategy<CatCase> {
    (
        any::<bool>(),
        0usize..3,
        any_white(),
        any_white(),
        any_white(),
        0u8..24,
        prop_oneof![1 => Just(0.0), 2 => (sign(), logu(-8.0, -1.0)).prop_map(|(s, x)| s * x), 1 => logu(-2.0, 2.0)],
        0u8..3,
        prop_oneof![logu(-2.0, 2.0), logu(-12.0, 12.0), select(vec![0.01, 0.5, 2.0, 100.0])],
        triple(scalar(2.0)),
    )
        .prop_map(|(single, cat, a, mut b, c, tie, change, form, scale, color)| {
            match tie {
                // equal in any set of components
                0..=7 => {
                    for i in 0..3 {
                        if tie & (1 << i) == 0 {
                            b[i] = a[i];
                        }
                    }
                }
                // equal but for a small change in one component
                8..=10 => {
                    b = a;
                    b[(tie - 8) as usize] *= 1.0 + change;
                }
                // the same chromaticity at another luminance
                11 => b = a.map(|v| v * (1.0 + change)),
                _ => {}
            }
            CatCase {
                single,
                cat,
                w: [a, b, c],
                form,
                scale,
                color,
            }
        })
        .boxed()
}

fn cat_check(c: &CatCase, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &CatCase, o: &mut Obs) -> CheckResult {
        let kind = CATS[c.cat];
        let call = |s: XYZ<T>, d: XYZ<T>| -> Matrix33<T> {
            let (xs, xd) = (XYY::<T>::from_xyz(s), XYY::<T>::from_xyz(d));
            match (c.form, kind) {
                (1, Cat::Bradford) => ca::bradford(xs, xd),
                (1, Cat::VonKries) => ca::von_kries(xs, xd),
                (1, Cat::Cat02) => ca::cat02(xs, xd),
                (2, Cat::Bradford) => ca::bradford(s, xd),
                (2, Cat::VonKries) => ca::von_kries(s, xd),
                (2, Cat::Cat02) => ca::cat02(s, xd),
                (_, Cat::Bradford) => ca::bradford(s, d),
                (_, Cat::VonKries) => ca::von_kries(s, d),
                (_, Cat::Cat02) => ca::cat02(s, d),
            }
        };
        let w: Vec<[f64; 3]> = c.w.iter().map(|w| rnd3::<T>(*w)).collect();
        let cone = kind.cone();
        for x in &w {
            let r = m3_vec(&cone, *x);
            let n = x.iter().fold(0.0f64, |m, v| m.max(v.abs()));
            if r.iter().any(|v| v.abs() < 0.02 * n) || (c.form > 0 && (x[1].abs() < 0.02 * n || (x[0] + x[1] + x[2]).abs() < 0.05 * n)) {
                return Ok(()); // degenerate white for this method
            }
        }
        let n = |x: [f64; 3]| x.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        let equal = w[0] == w[1];
        o.nontrivial_if(!equal);
        o.class_if(equal, "equal whites");
        o.class_if(T::SINGLE, "f32");
        // the von Kries inverse is published rounded to 1e-7
        let pubr = if kind == Cat::VonKries { 1e-6 } else { 0.0 };
        let eps = 400.0 * T::EPS;
        let (a, b, d) = (xyz_of::<T>(w[0]), xyz_of::<T>(w[1]), xyz_of::<T>(w[2]));
        let ab = m3_from(&call(a, b));
        let want = if equal { ID3 } else { kind.matrix(w[0], w[1]) };
        let gains = |s: [f64; 3], d: [f64; 3]| {
            let (s, d) = (m3_vec(&cone, s), m3_vec(&cone, d));
            (0..3).map(|i| (d[i] / s[i]).abs()).fold(0.0f64, f64::max)
        };
        // relative error of a cone response under cancellation
        let canc = w
            .iter()
            .map(|x| {
                let r = m3_vec(&cone, *x);
                let s = m3_abs_vec(&cone, *x);
                (0..3).map(|i| s[i] / r[i].abs()).fold(1.0f64, f64::max)
            })
            .fold(1.0f64, f64::max)
            * if c.form > 0 { 10.0 } else { 1.0 };
        let g = gains(w[0], w[1]);
        let tol = g * (pubr + eps * canc) * 4.0;
        for i in 0..3 {
            for j in 0..3 {
                ensure!(
                    close(ab[i][j], want[i][j], tol),
                    "{:?} {:?} -> {:?}: [{}][{}] is {:e}, cone-space definition gives {:e}",
                    kind, w[0], w[1], i, j, ab[i][j], want[i][j]
                );
            }
        }
        // white to white, on the value actually converted
        let m = m3_vec(&ab, w[0]);
        for i in 0..3 {
            ensure!(close(m[i], w[1][i], tol * n(w[0])), "{:?}: source white {:?} maps to {:?}, not to {:?}", kind, w[0], m, w[1]);
        }
        // identity (up to the rounding of the two cone matrices)
        if equal {
            let off = (0..9).fold(0.0f64, |m, k| m.max((ab[k / 3][k % 3] - ID3[k / 3][k % 3]).abs()));
            ensure!(off <= 8.0 * T::EPS || c.form == 2, "{:?}: adaptation between equal whites is {:?}", kind, ab);
        }
        // inverse
        let ba = m3_from(&call(b, a));
        let p = m3_mul(&ba, &ab);
        let g2 = g * gains(w[1], w[0]);
        for i in 0..3 {
            for j in 0..3 {
                ensure!(close(p[i][j], ID3[i][j], 8.0 * g2 * (pubr + eps * canc)), "{:?}: adapting there and back is {:?}", kind, p);
            }
        }
        // transitivity
        let bd = m3_from(&call(b, d));
        let ad = m3_from(&call(a, d));
        let p = m3_mul(&bd, &ab);
        let g3 = g * gains(w[1], w[2]);
        for i in 0..3 {
            for j in 0..3 {
                ensure!(
                    close(p[i][j], ad[i][j], 8.0 * g3.max(gains(w[0], w[2])) * (pubr + eps * canc)),
                    "{:?}: via intermediate white {:?}, direct {:?}",
                    kind, p, ad
                );
            }
        }
        // common scale
        let s = rnd::<T>(c.scale);
        let sa = xyz_of::<T>([w[0][0] * s, w[0][1] * s, w[0][2] * s]);
        let sb = xyz_of::<T>([w[1][0] * s, w[1][1] * s, w[1][2] * s]);
        let sab = m3_from(&call(sa, sb));
        for i in 0..3 {
            for j in 0..3 {
                ensure!(close(sab[i][j], ab[i][j], 4.0 * tol), "{:?}: scaling both whites by {} changes the matrix: {:?} vs {:?}", kind, s, sab, ab);
            }
        }
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        rule: "Cases are three whites (standard, random chromaticity and luminance, random cone responses of either sign, equal in all / some components) x method x argument form (XYZ, xyY, mixed) x precision. Non-trivial: source and destination differ and no cone response of a white vanishes.",
        assumptions: &["the published von Kries inverse is rounded to 1e-7, so 1e-6 relative is allowed there"],
        subs: vec![sub("cat", 500_000, 30, cat_strategy, cat_check)],
    }
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct XyyCase {
    single: bool,
    x: f64,
    y: f64,
    lum: f64,
    scale: f64,
}

fn xyy_strategy() -> BoxedStrategy<XyyCase> {
    let xy = prop_oneof![
        5 => (0.0f64..0.8, 0.001f64..0.9),
        2 => white_xy(),
        2 => (-0.5f64..1.2, prop_oneof![-0.5f64..-0.001, 0.001f64..1.2]),
        1 => (Just(0.0), 0.01f64..1.0),
        1 => (0.0f64..1.0).prop_map(|y| (1.0 - y, y.max(0.001))),
        1 => (0.0f64..0.7, logu(-4.0, -1.0)),
    ];
    let lum = prop_oneof![3 => 0.0f64..1.0, 2 => Just(1.0), 2 => (sign(), logu(-8.0, 6.0)).prop_map(|(s, l)| s * l), 1 => (sign(), logu(-22.0, 22.0)).prop_map(|(s, l)| s * l), 1 => select(vec![0.5, 0.18, 100.0, 1e-3])];
    (any::<bool>(), xy, lum, logu(-3.0, 3.0))
        .prop_map(|(single, (x, y), lum, scale)| XyyCase { single, x, y, lum, scale })
        .boxed()
}

fn xyy_check(c: &XyyCase, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &XyyCase, o: &mut Obs) -> CheckResult {
        let (x, y, l) = (rnd::<T>(c.x), rnd::<T>(c.y), rnd::<T>(c.lum));
        if y.abs() < 5e-5 || l == 0.0 {
            return Ok(());
        }
        o.nontrivial();
        o.class_if(l < 0.0 || x < 0.0 || y < 0.0, "imaginary");
        let eps = T::EPS;
        let a = XYY::<T>::new(T::of(x), T::of(y), T::of(l));
        ensure!((a.x.d(), a.y.d(), a.Y.d()) == (x, y, l), "XYY::new does not keep its arguments");
        let want = xyy_to_xyz(x, y, l);
        let amp = 1.0 + x.abs() + y.abs();
        let tol3 = |w: [f64; 3]| {
            let s = (l * 100.0 / y).abs() * amp;
            [eps * 8.0 * w[0].abs(), eps * 8.0 * w[1].abs(), eps * 8.0 * s]
        };
        let tol = tol3(want);
        for (got, what) in [(XYZ::<T>::from_chromaticity(a), "from_chromaticity"), (XYZ::<T>::from(a), "From<XYY>")] {
            let g = xyz_d(got);
            for i in 0..3 {
                ensure!(close(g[i], want[i], tol[i]), "{}({:?}) is {:?}, expected {:?}", what, (x, y, l), g, want);
            }
        }
        let g = xyz_d(XYZ::<T>::from_xy(T::of(x), T::of(y)));
        let w1 = xyy_to_xyz(x, y, 1.0);
        for i in 0..3 {
            ensure!(close(g[i], w1[i], tol[i] / l.abs()), "from_xy({:?}) is {:?}, expected {:?}", (x, y), g, w1);
        }
        let s = colorspace::xy(T::of(x), T::of(y));
        ensure!((s.x.d(), s.y.d(), s.Y.d()) == (x, y, 1.0), "xy({}, {}) is {:?}", x, y, s);
        // XYZ -> xyY on the exact XYZ value
        let xyz = XYZ::<T>::from_chromaticity(a);
        let v = xyz_d(xyz);
        let sum = v[0] + v[1] + v[2];
        let mag = v[0].abs() + v[1].abs() + v[2].abs();
        if v.iter().any(|x| *x != 0.0 && x.abs() < 1e-33) {
            return Ok(()); // no room for relative precision in f32
        }
        for (got, what) in [(XYY::<T>::from_xyz(xyz), "from_xyz"), (XYY::<T>::from(xyz), "From<XYZ>")] {
            let k = mag / sum.abs();
            ensure!(
                close(got.x.d(), v[0] / sum, 16.0 * eps * k * (v[0] / sum).abs())
                    && close(got.y.d(), v[1] / sum, 16.0 * eps * k * (v[1] / sum).abs())
                    && close(got.Y.d(), v[1] / 100.0, 4.0 * eps * (v[1] / 100.0).abs()),
                "{}({:?}) is {:?}, expected {:?}",
                what, v, got, [v[0] / sum, v[1] / sum, v[1] / 100.0]
            );
            // round trip xyY -> XYZ -> xyY
            let k2 = 64.0 * eps * k * (1.0 + k);
            ensure!(
                close(got.x.d(), x, k2 * (x.abs() + eps)) || close(got.x.d(), x, k2),
                "xyY -> XYZ -> xyY changed x: {} -> {}",
                x, got.x.d()
            );
            ensure!(close(got.y.d(), y, k2), "xyY -> XYZ -> xyY changed y: {} -> {}", y, got.y.d());
            // and XYZ -> xyY -> XYZ
            let back = xyz_d(XYZ::<T>::from_chromaticity(got));
            let t = 64.0 * eps * k * (1.0 + k) * mag.max((100.0 * l / y).abs());
            for i in 0..3 {
                ensure!(close(back[i], v[i], t), "XYZ -> xyY -> XYZ changed {:?} to {:?}", v, back);
            }
            // luminance independence
            let sc = rnd::<T>(c.scale);
            let v2 = xyz_of::<T>([v[0] * sc, v[1] * sc, v[2] * sc]);
            let g2 = XYY::<T>::from_xyz(v2);
            ensure!(
                close(g2.x.d(), got.x.d(), 32.0 * eps * k * (1.0 + k)) && close(g2.y.d(), got.y.d(), 32.0 * eps * k * (1.0 + k)),
                "chromaticity depends on luminance: {:?} vs {:?} for scale {}",
                got, g2, sc
            );
        }
        // normalisation
        let n1 = xyz_d(xyz.normalized());
        let n100 = xyz_d(xyz.normalized_y());
        for i in 0..3 {
            let r = v[i] / v[1];
            ensure!(close(n1[i], r, 4.0 * eps * r.abs()), "normalized() of {:?} is {:?}", v, n1);
            ensure!(close(n100[i], 100.0 * r, 400.0 * eps * r.abs()), "normalized_y() of {:?} is {:?}", v, n100);
        }
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct XyzCase {
    single: bool,
    v: [f64; 3],
}

fn xyz_direct(c: &XyzCase, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &XyzCase, o: &mut Obs) -> CheckResult {
        let v = rnd3::<T>(c.v);
        let sum = v[0] + v[1] + v[2];
        let mag = v[0].abs() + v[1].abs() + v[2].abs();
        if v[1].abs() < 1e-4 * mag || sum.abs() < 1e-2 * mag || mag == 0.0 || v.iter().any(|x| *x != 0.0 && x.abs() < 1e-33) {
            return Ok(());
        }
        o.nontrivial();
        let got = XYY::<T>::from_xyz(xyz_of::<T>(v));
        let k = mag / sum.abs();
        let eps = T::EPS;
        ensure!(
            close(got.x.d(), v[0] / sum, 16.0 * eps * k * (v[0] / sum).abs())
                && close(got.y.d(), v[1] / sum, 16.0 * eps * k * (v[1] / sum).abs())
                && close(got.Y.d(), v[1] / 100.0, 4.0 * eps * (v[1] / 100.0).abs()),
            "from_xyz({:?}) is {:?}",
            v, got
        );
        let back = xyz_d(XYZ::<T>::from(got));
        let t = 64.0 * eps * k * (1.0 + k) * mag.max(v[1].abs());
        for i in 0..3 {
            ensure!(close(back[i], v[i], t), "XYZ -> xyY -> XYZ changed {:?} to {:?}", v, back);
        }
        let (n1, n100) = (xyz_d(xyz_of::<T>(v).normalized()), xyz_d(xyz_of::<T>(v).normalized_y()));
        for i in 0..3 {
            let r = v[i] / v[1];
            ensure!(close(n1[i], r, 4.0 * eps * r.abs()), "normalized() of {:?} is {:?}", v, n1);
            ensure!(close(n100[i], 100.0 * r, 400.0 * eps * r.abs()), "normalized_y() of {:?} is {:?}", v, n100);
        }
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        rule: "Cases are xyY values (real, standard whites, imaginary, x=0, x+y=1, tiny y; luminance over 44 decades) and XYZ values x precision. Non-trivial: non-zero luminance and y.",
        assumptions: &[],
        subs: vec![
            sub("xyy", 800_000, 30, xyy_strategy, xyy_check),
            sub(
                "xyz",
                800_000,
                30,
                || {
                    (any::<bool>(), triple(prop_oneof![3 => 0.0f64..120.0, 1 => scalar(4.0)].boxed()), prop_oneof![3 => Just(1.0), 1 => logu(-22.0, 22.0)])
                        .prop_map(|(single, v, k)| XyzCase { single, v: v.map(|x| x * k) })
                },
                xyz_direct,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LabCase {
    single: bool,
    /// ratios to the white
    r: [f64; 3],
    white: [f64; 3],
    lab: [f64; 3],
    as_xyy: bool,
}

const LAB_THR: &[f64] = &[0.008856451679035631, 0.0, 1.0, 0.01, 0.001, 0.5];
const L_THR: &[f64] = &[8.0, 0.0, 100.0, 50.0, 7.9996, 0.0001];

fn lab_strategy() -> BoxedStrategy<LabCase> {
    let ratio = prop_oneof![
        5 => 0.0f64..=1.2,
        3 => near(LAB_THR),
        3 => 0.0f64..0.02,
        1 => -0.1f64..0.0,
        2 => logu(-9.0, 3.0),
        // brighter or more negative than any light
        1 => prop_oneof![2 => logu(3.0, 8.0), 2 => logu(-9.0, 3.0).prop_map(|x| -x)],
        1 => select(vec![0.0, 1.0, 0.18, 0.2, 0.5]),
    ]
    .boxed();
    let l = prop_oneof![5 => 0.0f64..=100.0, 2 => near(L_THR), 2 => 0.0f64..10.0, 1 => -20.0f64..150.0, 1 => select(vec![0.0, 100.0, 50.0, 8.0]), 1 => (sign(), logu(-9.0, 5.0)).prop_map(|(s, x)| s * x)];
    let ab = prop_oneof![5 => -128.0f64..128.0, 1 => Just(0.0), 2 => -2.0f64..2.0, 1 => -400.0f64..400.0, 1 => (sign(), logu(-9.0, 5.0)).prop_map(|(s, x)| s * x)];
    let white = prop_oneof![
        4 => white_xy().prop_map(|(x, y)| xyy_to_xyz(x, y, 1.0)),
        2 => proptest::array::uniform3(20.0f64..150.0),
        1 => Just([1.0, 1.0, 1.0]),
        1 => Just([100.0, 100.0, 100.0]),
        1 => Just([95.047, 100.0, 108.883]),
        1 => proptest::array::uniform3(logu(-2.0, 4.0)),
    ];
    (any::<bool>(), triple(ratio), white, l, ab.clone(), ab, proptest::bool::weighted(0.2))
        .prop_map(|(single, r, white, l, a, b, as_xyy)| LabCase {
            single,
            r,
            white,
            lab: [l, a, b],
            as_xyy,
        })
        .boxed()
}

fn lab_check(c: &LabCase, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &LabCase, o: &mut Obs) -> CheckResult {
        let mut w = rnd3::<T>(c.white);
        let eps = T::EPS;
        let mut ws = xyz_of::<T>(w);
        let xyy = XYY::<T>::from_xyz(ws);
        if c.as_xyy {
            // the white is handed over as xyY; the reference uses the XYZ it stands for
            ws = XYZ::<T>::from(xyy);
            w = xyz_d(ws);
        }
        let v = rnd3::<T>([c.r[0] * w[0], c.r[1] * w[1], c.r[2] * w[2]]);
        o.nontrivial_if(v.iter().any(|x| *x != 0.0));
        o.class_if(v.iter().zip(w.iter()).any(|(v, w)| v / w < 0.008856), "dark segment");
        o.class_if(v.iter().any(|x| *x < 0.0), "negative");
        let got = if c.as_xyy {
            xyz_to_lab(xyz_of::<T>(v), xyy)
        } else {
            xyz_to_lab(xyz_of::<T>(v), ws)
        };
        let want = xyz_to_lab_ref(v, w);
        let f = [lab_f(v[0] / w[0]), lab_f(v[1] / w[1]), lab_f(v[2] / w[2])];
        let ferr = |i: usize| 12.0 * eps * (1.0 + 1.0) * (f[i].abs() + 0.14);
        let tol = [116.0 * ferr(1), 500.0 * (ferr(0) + ferr(1)), 200.0 * (ferr(1) + ferr(2))];
        let g = [got.L.d(), got.a.d(), got.b.d()];
        for i in 0..3 {
            ensure!(close(g[i], want[i], tol[i]), "Lab of XYZ {:?} (white {:?}) is {:?}, CIE 1976 gives {:?}", v, w, g, want);
        }
        // round trip XYZ -> Lab -> XYZ
        let back = xyz_d(labm::lab_to_xyz(got, ws));
        for i in 0..3 {
            let fmax = f[0].abs().max(f[1].abs()).max(f[2].abs()) + 0.14;
            let slope = 3.0 * f[i].powi(2).max(0.043) * 1.01 + 1e-12;
            let t = w[i].abs() * slope * 40.0 * eps * fmax + 16.0 * eps * v[i].abs();
            ensure!(close(back[i], v[i], t), "XYZ -> Lab -> XYZ changed {:?} to {:?} (white {:?}, tolerance {:e})", v, back, w, t);
        }
        // Lab -> XYZ against the reference, and back
        let l = rnd3::<T>(c.lab);
        let ll = lab(T::of(l[0]), T::of(l[1]), T::of(l[2]));
        ensure!([ll.L.d(), ll.a.d(), ll.b.d()] == l, "lab() does not keep its arguments");
        let x = if c.as_xyy { labm::lab_to_xyz(ll, xyy) } else { labm::lab_to_xyz(ll, ws) };
        let want = lab_to_xyz(l, w);
        let g = xyz_d(x);
        let fy = (l[0] + 16.0) / 116.0;
        let fs = [fy + l[1] / 500.0, fy, fy - l[2] / 200.0];
        let part = [fy.abs() + (l[1] / 500.0).abs(), fy.abs() + 0.14, fy.abs() + (l[2] / 200.0).abs()];
        for i in 0..3 {
            let slope = 3.0 * fs[i].powi(2).max(0.043);
            let t = w[i].abs() * (slope * 16.0 * eps * (part[i] + 0.14) + 16.0 * eps * fs[i].abs().powi(3));
            ensure!(close(g[i], want[i], t), "XYZ of Lab {:?} (white {:?}) is {:?}, CIE 1976 gives {:?}", l, w, g, want);
        }
        let again = xyz_to_lab(x, ws);
        let g = [again.L.d(), again.a.d(), again.b.d()];
        let m = part[0].max(part[1]).max(part[2]) + 0.14;
        // f loses accuracy when f^3 is evaluated near the dark segment of a negative f
        let t = 120.0 * eps * m;
        for (i, k) in [116.0, 500.0, 200.0].iter().enumerate() {
            ensure!(close(g[i], l[i], k * t), "Lab -> XYZ -> Lab changed {:?} to {:?} (white {:?})", l, g, w);
        }
        // neutral axis
        let k = rnd::<T>(c.r[1]);
        let n = xyz_to_lab(xyz_of::<T>([w[0] * k, w[1] * k, w[2] * k]), ws);
        let ft = 40.0 * eps * (lab_f(k).abs() + 0.14);
        ensure!(close(n.a.d(), 0.0, 500.0 * ft) && close(n.b.d(), 0.0, 200.0 * ft), "{} x white has a={:e}, b={:e}", k, n.a.d(), n.b.d());
        let n = xyz_to_lab(ws, ws);
        ensure!(
            close(n.L.d(), 100.0, 100.0 * 16.0 * eps) && close(n.a.d(), 0.0, 500.0 * 8.0 * eps) && close(n.b.d(), 0.0, 200.0 * 8.0 * eps),
            "white maps to {:?}",
            n
        );
        let n = xyz_to_lab(xyz_of::<T>([0.0; 3]), ws);
        ensure!(
            close(n.L.d(), 0.0, 100.0 * 8.0 * eps) && close(n.a.d(), 0.0, 500.0 * 8.0 * eps) && close(n.b.d(), 0.0, 200.0 * 8.0 * eps),
            "black maps to {:?}",
            n
        );
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

fn xyz_to_lab_ref(v: [f64; 3], w: [f64; 3]) -> [f64; 3] {
    ref_xyz_to_lab(v, w)
}
fn lab_to_xyz(l: [f64; 3], w: [f64; 3]) -> [f64; 3] {
    ref_lab_to_xyz(l, w)
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        rule: "Cases are XYZ as ratios to a generated white (uniform, within ulps of (6/29)^3, dark, negative to -1000x, up to 1e8 x), a Lab value (L around 0, 8, 100 and up to +-1e5; a,b up to +-1e5) x white (standard, random, unit) x argument form x precision. Non-trivial: XYZ is not black.",
        assumptions: &["the two CIE segments join smoothly, so either is accepted at the threshold through the tolerance"],
        subs: vec![sub("lab", 1_000_000, 30, lab_strategy, lab_check)],
    }
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DeCase {
    single: bool,
    a: [f64; 3],
    b: [f64; 3],
}

fn de_strategy() -> BoxedStrategy<DeCase> {
    let l = prop_oneof![4 => 0.0f64..=100.0, 1 => select(vec![0.0, 50.0, 100.0, 25.0, 75.0]), 1 => 45.0f64..55.0, 1 => -10.0f64..160.0].boxed();
    let hue = prop_oneof![
        5 => 0.0f64..360.0,
        2 => select(vec![0.0, 30.0, 45.0, 90.0, 135.0, 180.0, 225.0, 270.0, 275.0, 315.0, 350.0]),
        2 => 250.0f64..300.0,
        1 => (sign(), logu(-6.0, 0.5)).prop_map(|(s, d)| (360.0 + s * d) % 360.0),
        1 => (sign(), logu(-6.0, 0.5)).prop_map(|(s, d)| 180.0 + s * d),
    ]
    .boxed();
    let chroma = prop_oneof![5 => 0.0f64..130.0, 2 => 0.0f64..5.0, 1 => Just(0.0), 1 => 20.0f64..30.0, 1 => logu(-4.0, 3.0)].boxed();
    let polar = (l.clone(), chroma.clone(), hue.clone())
        .prop_map(|(l, c, h): (f64, f64, f64)| [l, c * h.to_radians().cos(), c * h.to_radians().sin()])
        .boxed();
    let grid = (l.clone(), -130i32..=130, -130i32..=130).prop_map(|(l, a, b)| [l, a as f64, b as f64]).boxed();
    let axis = (l, chroma, 0u8..4).prop_map(|(l, c, k)| match k {
        0 => [l, c, 0.0],
        1 => [l, -c, 0.0],
        2 => [l, 0.0, c],
        _ => [l, 0.0, -c],
    });
    let base = prop_oneof![6 => polar, 1 => grid, 1 => axis].boxed();
    let second = prop_oneof![
        // independent
        4 => base.clone().prop_map(|b| (0u8, b, 0.0)),
        // offset
        3 => (proptest::array::uniform3(-1.0f64..1.0), logu(-4.0, 1.5)).prop_map(|(d, s)| (1u8, d, s)),
        1 => (proptest::array::uniform3(-1.0f64..1.0), logu(-13.0, -4.0)).prop_map(|(d, s)| (1u8, d, s)),
        // same lightness only / same chroma plane only
        1 => base.clone().prop_map(|b| (2u8, b, 0.0)),
        1 => base.clone().prop_map(|b| (3u8, b, 0.0)),
        // opposite hue
        1 => (proptest::array::uniform3(0.0f64..1.0), logu(-12.0, 0.5)).prop_map(|(d, s)| (4u8, d, s)),
        1 => Just((5u8, [0.0; 3], 0.0)),
        // nearly achromatic: both, or the first only; of one lightness or not
        1 => (base.clone(), logu(-10.0, -2.0)).prop_map(|(b, s)| (6u8, b, s)),
        1 => (base.clone(), logu(-14.0, -2.0)).prop_map(|(b, s)| (7u8, b, s)),
    ];
    (any::<bool>(), base, second)
        .prop_map(|(single, mut a, (k, b, s))| {
            if k >= 6 {
                a = [if b[1] > b[2] { b[0] } else { a[0] }, a[1] * s, a[2] * s];
            }
            let b = match k {
                0 => b,
                1 => [a[0] + b[0] * s, a[1] + b[1] * s, a[2] + b[2] * s],
                2 => [a[0], b[1], b[2]],
                3 => [b[0], a[1], a[2]],
                4 => {
                    let (sn, cs) = s.to_radians().sin_cos();
                    let (x, y) = (-a[1] * (0.5 + b[1]), -a[2] * (0.5 + b[1]));
                    [a[0] + b[0], x * cs - y * sn, x * sn + y * cs]
                }
                6 => [b[0], b[1] * s, b[2] * s],
                7 => b,
                _ => a,
            };
            DeCase { single, a, b }
        })
        .boxed()
}

fn de_check(c: &DeCase, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &DeCase, o: &mut Obs) -> CheckResult {
        let (a, b) = (rnd3::<T>(c.a), rnd3::<T>(c.b));
        let eps = T::EPS;
        let mk = |x: [f64; 3]| lab(T::of(x[0]), T::of(x[1]), T::of(x[2]));
        let same = a == b;
        o.nontrivial_if(!same);
        o.class_if(same, "equal colours");
        o.class_if(a[0] != b[0], "different lightness");
        let mag = a.iter().chain(b.iter()).fold(1.0f64, |m, v| m.max(v.abs()));
        // 1976
        let d = labm::delta_E_1976(mk(a), mk(b)).d();
        let want = ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2) + (a[2] - b[2]).powi(2)).sqrt();
        // squares underflow below this in single precision
        let floor = if T::SINGLE { 1e-18 } else { 1e-150 };
        ensure!(close(d, want, 8.0 * eps * (want + mag * 0.5) + floor), "dE76 of {:?} {:?} is {:e}, expected {:e}", a, b, d, want);
        ensure!(close(labm::delta_E_1976(mk(b), mk(a)).d(), d, 4.0 * eps * d), "dE76 is not symmetric for {:?} {:?}", a, b);
        ensure!(d >= 0.0 && (d == 0.0) == same || want < 1e-15, "dE76 of {:?} {:?} is {:e}", a, b, d);
        // 2000
        let e = labm::delta_E_2000(mk(a), mk(b)).d();
        let e2 = colorspace::delta_E(mk(b), mk(a)).d();
        let zone = 2000.0 * eps;
        let alts = ciede2000_all(a, b, zone);
        let ca = a[1].hypot(a[2]) + b[1].hypot(b[2]);
        // hue angles carry 360 eps absolute error
        let tol = 64.0 * eps * (1.0 + ca + mag);
        o.class_if(alts.len() > 1, "near a discontinuity");
        let (dh, wrapped) = {
            let h = |x: [f64; 3]| x[2].atan2(x[1]).to_degrees().rem_euclid(360.0);
            let d = (h(a) - h(b)).abs();
            (d, d > 180.0)
        };
        o.class_if(wrapped, "hue wrap");
        o.class_if((dh - 180.0).abs() < 1.0, "nearly opposite hues");
        ensure!(
            alts.iter().any(|w| close(e, *w, tol)),
            "CIEDE2000 of {:?} {:?} is {:e}, published formula {:?} (tolerance {:e})",
            a, b, e, alts, tol
        );
        ensure!(
            alts.iter().any(|w| close(e2, *w, tol)) && (alts.len() > 1 || close(e, e2, tol)),
            "CIEDE2000 is not symmetric for {:?} {:?}: {:e} vs {:e}",
            a, b, e, e2
        );
        if same {
            ensure!(e == 0.0, "CIEDE2000 of equal colours {:?} is {:e}", a, e);
        } else {
            ensure!(e >= 0.0, "CIEDE2000 is {:e}", e);
            let m = alts.iter().cloned().fold(f64::INFINITY, f64::min);
            ensure!(e > 0.0 || m < tol, "CIEDE2000 of different colours {:?} {:?} is zero", a, b);
        }
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FarCase {
    base: DeCase,
    // decades the pair is scaled by, as a fraction of what the precision holds
    decades: f64,
}

/// The 1976 distance is Euclid's at any magnitude, not only inside the solid.
fn far_check(c: &FarCase, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &FarCase, o: &mut Obs) -> CheckResult {
        // the base reaches 1e3 and its squares must stay within range
        let (low, high) = if T::SINGLE { (-12.0, 15.0) } else { (-100.0, 140.0) };
        let k = 10f64.powf(low + c.decades * (high - low));
        let (a, b) = (rnd3::<T>(c.base.a.map(|v| v * k)), rnd3::<T>(c.base.b.map(|v| v * k)));
        let eps = T::EPS;
        let mk = |x: [f64; 3]| lab(T::of(x[0]), T::of(x[1]), T::of(x[2]));
        let mag = a.iter().chain(b.iter()).fold(0.0f64, |m, v| m.max(v.abs()));
        o.nontrivial_if(a != b);
        o.class_if(k > 10.0, "beyond the solid");
        o.class_if(k < 1e-3, "minute");
        let want = (a[0] - b[0]).hypot(a[1] - b[1]).hypot(a[2] - b[2]);
        let d = labm::delta_E_1976(mk(a), mk(b)).d();
        let r = labm::delta_E_1976(mk(b), mk(a)).d();
        // squares underflow below this in single precision
        let floor = if T::SINGLE { 1e-18 } else { 1e-150 };
        ensure!(close(d, want, 8.0 * eps * (want + mag * 0.5) + floor), "dE76 of {:?} {:?} is {:e}, expected {:e}", a, b, d, want);
        ensure!(close(r, d, 4.0 * eps * d), "dE76 is not symmetric for {:?} {:?}", a, b);
        if a == b {
            ensure!(d == 0.0, "dE76 of equal colours {:?} is {:e}", a, d);
        } else {
            ensure!(d > 0.0 || want < floor * 10.0, "dE76 of different colours {:?} {:?} is zero", a, b);
        }
        Ok(())
    }
    by_precision!(c.base.single, go, c, o)
}

pub fn c08() -> Property {
    Property {
        id: "C08",
        rule: "Cases are pairs of Lab colours: polar (all hues, chroma 0..1000, clustered at 0/180/360 and the 275 degree blue region), grid, axis; the second colour independent, offset by 1e-13..30, same lightness, same chromaticity, opposite hue, equal, or nearly achromatic; x precision; for the 1976 distance also the same pairs scaled over all the decades the precision holds. Non-trivial: the colours differ.",
        assumptions: &["CIEDE2000 is discontinuous at opposite hues; within rounding of that locus either one-sided value is accepted"],
        subs: vec![
            sub("delta_e", 2_000_000, 30, de_strategy, de_check),
            sub(
                "far",
                200_000,
                30,
                || (de_strategy(), 0.0f64..1.0).prop_map(|(base, decades)| FarCase { base, decades }).boxed(),
                far_check,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Code {
    wide: bool,
    code: [u32; 3],
}

fn code_check(c: &Code, o: &mut Obs) -> CheckResult {
    o.nontrivial();
    if c.wide {
        let p = rgbu16(c.code[0] as u16, c.code[1] as u16, c.code[2] as u16);
        ensure!([p.r as u32, p.g as u32, p.b as u32] == c.code, "rgbu16 order");
        let f = RGBf32::from(p);
        let d = RGBf64::from(p);
        for (i, k) in c.code.iter().enumerate() {
            let w = *k as f64 / 65535.0;
            ensure!(close(f[i] as f64, w, 1.2e-7 * w), "u16 {} -> f32 {:e}", k, f[i]);
            ensure!(close(d[i], w, 4.5e-16 * w), "u16 {} -> f64 {:e}", k, d[i]);
        }
        ensure!(RGBu16::from(f) == p, "u16 {:?} -> f32 -> u16 is {:?}", p, RGBu16::from(f));
        ensure!(RGBu16::from(d) == p, "u16 {:?} -> f64 -> u16 is {:?}", p, RGBu16::from(d));
    } else {
        let p = rgbu8(c.code[0] as u8, c.code[1] as u8, c.code[2] as u8);
        ensure!([p.r as u32, p.g as u32, p.b as u32] == c.code, "rgbu8 order");
        let f = RGBf32::from(p);
        let d = RGBf64::from(p);
        for (i, k) in c.code.iter().enumerate() {
            let w = *k as f64 / 255.0;
            ensure!(close(f[i] as f64, w, 1.2e-7 * w), "u8 {} -> f32 {:e}", k, f[i]);
            ensure!(close(d[i], w, 4.5e-16 * w), "u8 {} -> f64 {:e}", k, d[i]);
        }
        ensure!(RGBu8::from(f) == p, "u8 {:?} -> f32 -> u8 is {:?}", p, RGBu8::from(f));
        ensure!(RGBu8::from(d) == p, "u8 {:?} -> f64 -> u8 is {:?}", p, RGBu8::from(d));
    }
    Ok(())
}

fn codes16(i: u64) -> Code {
    // all codes in all three channel positions, the others decorrelated
    let n = i as u32 % 65536;
    let k = (i / 65536) as usize;
    let mut code = [(n.wrapping_mul(40503) ^ 0x5a5a) & 0xffff, n.wrapping_mul(9176).wrapping_add(77) & 0xffff, 65535 - n];
    code[k] = n;
    Code { wide: true, code }
}
fn codes8(i: u64) -> Code {
    // all pairs of (channel value, next channel value)
    let k = (i / 65536) as usize;
    let mut code = [((i * 31) % 256) as u32; 3];
    code[k] = (i % 256) as u32;
    code[(k + 1) % 3] = ((i / 256) % 256) as u32;
    Code { wide: false, code }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Quant {
    /// channel values as f64 bit patterns, so that infinities survive JSON
    bits: [u64; 3],
    step: f64,
}

fn quant_chan() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => 0.0f64..=1.0,
        2 => -0.5f64..1.5,
        // around the rounding boundaries of both code widths
        2 => (0u32..=255, -8i64..=8).prop_map(|(k, u)| f64::from_bits((((k as f64 + 0.5) / 255.0).to_bits() as i64 + u) as u64)),
        2 => (0u32..=65535, -8i64..=8).prop_map(|(k, u)| f64::from_bits((((k as f64 + 0.5) / 65535.0).to_bits() as i64 + u) as u64)),
        1 => (0u32..=255, -4i32..=4).prop_map(|(k, u)| f32::from_bits((((k as f32 + 0.5) / 255.0).to_bits() as i32 + u) as u32) as f64),
        1 => (0u32..=65535, -4i32..=4).prop_map(|(k, u)| f32::from_bits((((k as f32 + 0.5) / 65535.0).to_bits() as i32 + u) as u32) as f64),
        1 => (0u32..=65535, -4i32..=4).prop_map(|(k, u)| f32::from_bits(((k as f32 / 65535.0).to_bits() as i32 + u).max(0) as u32) as f64),
        1 => (sign(), logu(-40.0, 38.0)).prop_map(|(s, x)| s * x),
        1 => near(&[1.0, 0.0, 0.5, 2.0]),
        1 => select(vec![0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, 0.5, 2.0, 255.0, 256.0, 65536.0, -255.0, 1e300, 1e-320]),
    ]
    .boxed()
}

fn quant_check(c: &Quant, o: &mut Obs) -> CheckResult {
    let x = [f64::from_bits(c.bits[0]), f64::from_bits(c.bits[1]), f64::from_bits(c.bits[2])];
    o.nontrivial_if(x.iter().any(|v| *v > 0.0 && *v < 1.0));
    o.class_if(x.iter().any(|v| *v < 0.0 || *v > 1.0), "out of range");
    o.class_if(x.iter().any(|v| v.is_infinite()), "infinite");
    let p64 = rgbf64(x[0], x[1], x[2]);
    let p32 = rgbf32(x[0] as f32, x[1] as f32, x[2] as f32);
    let conv = RGBf32::from(p64);
    for i in 0..3 {
        ensure!(conv[i].to_bits() == p32[i].to_bits(), "f64 {:e} -> f32 {:e}", x[i], conv[i]);
    }
    let test = |v: f64, got: f64, max: f64, eps: f64, what: &str| -> CheckResult {
        let cl = v.clamp(0.0, 1.0) * max;
        // nearest code; at a tie within rounding either neighbour
        ensure!((got - cl).abs() <= 0.5 + 2.0 * eps * cl.max(1e-3), "{}: {:e} quantises to {} (exact {:e})", what, v, got, cl);
        Ok(())
    };
    let (a, b) = (RGBu8::from(p32), RGBu16::from(p32));
    let (d, e) = (RGBu8::from(p64), RGBu16::from(p64));
    for i in 0..3 {
        let pick8 = |p: RGBu8| [p.r, p.g, p.b][i] as f64;
        let pick16 = |p: RGBu16| [p.r, p.g, p.b][i] as f64;
        test(p32[i] as f64, pick8(a), 255.0, f32::EPSILON as f64, "f32->u8")?;
        test(p32[i] as f64, pick16(b), 65535.0, f32::EPSILON as f64, "f32->u16")?;
        test(x[i], pick8(d), 255.0, f64::EPSILON, "f64->u8")?;
        test(x[i], pick16(e), 65535.0, f64::EPSILON, "f64->u16")?;
    }
    // order is preserved
    if x[0].is_finite() {
        let y = x[0] + c.step * (1.0 + x[0].abs().min(1.0));
        let hi = rgbf64(y, x[1], x[2]);
        ensure!(RGBu8::from(hi).r >= d.r && RGBu16::from(hi).r >= e.r, "quantisation is not monotone between {:e} and {:e}", x[0], y);
        let hi = rgbf32(y as f32, p32.g, p32.b);
        ensure!(RGBu8::from(hi).r >= a.r && RGBu16::from(hi).r >= b.r, "f32 quantisation is not monotone between {:e} and {:e}", x[0], y);
        ensure!(RGBu8::from(hi).g == a.g && RGBu16::from(hi).b == b.b, "channels are not independent");
    }
    Ok(())
}

pub fn c09() -> Property {
    Property {
        id: "C09",
        rule: "codes16: all 65536 codes in each channel; codes8: all pairs of adjacent channel codes; quantise: float triples uniform, within ulps of every rounding boundary (k+0.5)/max, out of range, infinite, denormal. Non-trivial: every code; for floats at least one channel strictly inside (0,1).",
        assumptions: &["NaN has no nearest code and is not claimed"],
        subs: vec![
            enumerate("codes16", |_| 3 * 65536, codes16, code_check),
            enumerate("codes8", |_| 3 * 65536, codes8, code_check),
            sub(
                "quantise",
                1_500_000,
                30,
                || {
                    (triple(quant_chan()), prop_oneof![logu(-12.0, 0.0), 0.0f64..0.01]).prop_map(|(x, step)| Quant {
                        bits: [x[0].to_bits(), x[1].to_bits(), x[2].to_bits()],
                        step,
                    })
                },
                quant_check,
            ),
        ],
    }
}
