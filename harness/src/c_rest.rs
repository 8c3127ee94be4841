//! C17-C21 and C23: fixed-grid spectra, SIMD planes, uplift, daylight,
//! luminance, bundled tables.
use crate::c_color::{rgb_d, rgb_of};
use crate::c_spec::*;
use crate::engine::*;
use crate::ensure;
use crate::fp::*;
use crate::gen::*;
use crate::refcolor::{ref_spaces, rgb_to_xyz_from_primaries};
use crate::refspec::{self, grid, Resampler, Spec};
use crate::tables::{self, Tables};
use crate::by_precision;
use colorspace::illuminant::xy::cct;
use colorspace::{cmf, illuminant, photometry, spd, uplifting, SpdShape, CMF, SPD, VSPD};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

const E32: f64 = f32::EPSILON as f64;

// ---------------------------------------------------------------- C17

/// The 40 x 3 weights of D65 and CIE 1931 on the fixed grid, from the
/// reference integration alone
fn weights() -> &'static [[f64; 3]; 40] {
    static W: OnceLock<[[f64; 3]; 40]> = OnceLock::new();
    W.get_or_init(|| {
        let il = of_vspd(&illuminant::spd::D65);
        let mut w = [[0.0; 3]; 40];
        for (k, r) in w.iter_mut().enumerate() {
            let s: Spec = (0..40).map(|i| (380.0 + 10.0 * i as f64, if i == k { 1.0 } else { 0.0 })).collect();
            *r = ref_xyz(&s, &il, &Method::Weights).0;
        }
        w
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fixed {
    v: Vec<f64>,
    w: Vec<f64>,
    k: usize,
}

fn arr(v: &[f64]) -> [f32; 40] {
    let mut a = [0.0f32; 40];
    for (x, y) in a.iter_mut().zip(v) {
        *x = *y as f32;
    }
    a
}

fn fixed_values() -> BoxedStrategy<Vec<f64>> {
    prop_oneof![
        5 => proptest::collection::vec(0.0f64..=1.0, 40..=40),
        3 => proptest::collection::vec(scalar(6.0), 40..=40),
        2 => (0usize..40, scalar(3.0)).prop_map(|(k, a)| (0..40).map(|i| if i == k { a } else { 0.0 }).collect()),
        1 => (0usize..40, scalar(3.0), scalar(3.0)).prop_map(|(k, a, b)| (0..40).map(|i| if i == k { a } else { b }).collect()),
        2 => scalar(6.0).prop_map(|c| vec![c; 40]),
        1 => (0.0f64..1.0, -0.1f64..0.1).prop_map(|(a, b)| (0..40).map(|i| a + b * i as f64).collect()),
    ]
    .boxed()
}

fn xyz32(x: colorspace::XYZf32) -> [f64; 3] {
    [x.x as f64, x.y as f64, x.z as f64]
}

fn check_fixed_xyz(c: &Fixed, o: &mut Obs) -> CheckResult {
    let a = arr(&c.v);
    let s = SPD::new(a);
    let mut want = [0.0; 3];
    let mut mag = [0.0; 3];
    for (i, w) in weights().iter().enumerate() {
        for k in 0..3 {
            want[k] += w[k] * a[i] as f64;
            mag[k] += (w[k] * a[i] as f64).abs();
        }
    }
    let mut paths = vec![("scalar", xyz32(spd::spd_to_xyz_scalar(&s))), ("default", xyz32(spd::spd_to_xyz(&s))), ("method", xyz32(s.to_xyz()))];
    #[cfg(target_feature = "avx")]
    {
        paths.push(("avx", xyz32(spd::spd_to_xyz_avx(&s))));
        o.class("avx path");
    }
    let vs: Vec<f64> = a.iter().map(|x| *x as f64).collect();
    let general = VSPD::from_values(SpdShape::new(380.0, 770.0, 10.0), &vs).to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE);
    paths.push(("general spectrum", tuple(general)));
    let amax = a.iter().fold(0.0f64, |m, x| m.max(x.abs() as f64));
    for (what, g) in &paths {
        for k in 0..3 {
            // weights that vanish may be stored as rounding noise
            let tol = 64.0 * E32 * mag[k] + 1e-14 * amax;
            ensure!(close(g[k], want[k], tol), "{}: component {} is {} instead of {} (tolerance {:e})", what, k, g[k], want[k], tol);
        }
    }
    o.nontrivial_if(a.windows(2).any(|w| w[0] != w[1]));
    o.class_if(a.iter().filter(|x| **x != 0.0).count() == 1, "impulse");
    ensure!(s.values.iter().zip(a).all(|(x, y)| x.to_bits() == y.to_bits()), "conversion changed its input");
    Ok(())
}

fn check_fixed_ops(c: &Fixed, o: &mut Obs) -> CheckResult {
    let (a, b) = (arr(&c.v), arr(&c.w));
    let (s, t) = (SPD::new(a), SPD::new(b));
    let same = |x: &[f32], y: &[f32]| x.len() == 40 && x.iter().zip(y).all(|(p, q)| p.to_bits() == q.to_bits());
    ensure!(same(&s.values, &a), "new() stored {:?}", s.values);
    let it: Vec<f32> = s.iter().copied().collect();
    ensure!(same(&it, &a), "iter() gives {:?} for {:?}", it, a);
    let cl = s.clone();
    ensure!(same(&cl.values, &a), "clone differs");
    ensure!(s == cl && cl == s, "a spectrum is not equal to its copy");
    let p = &s * &t;
    for i in 0..40 {
        ensure!(p.values[i] == a[i] * b[i] || (p.values[i].is_nan() && (a[i] * b[i]).is_nan()), "product at {} nm is {} instead of {}", 380 + 10 * i, p.values[i], a[i] * b[i]);
    }
    ensure!(same(&s.values, &a) && same(&t.values, &b), "multiplication changed its input");
    ensure!((s == t) == (a == b) && (t == s) == (a == b), "equality of {:?} and {:?} is {}", a, b, s == t);
    // a difference in any one sample is seen, whatever the sample
    let k = c.k % 40;
    // zeros are equal whatever their sign
    let mut z = s.clone();
    z.values.iter_mut().filter(|x| **x == 0.0).for_each(|x| *x = -*x);
    ensure!((s == z) == (a == z.values) && (z == s) == (a == z.values), "{:?} does not equal itself with the signs of its zeros changed", a);
    let mut e = s.clone();
    e.values[k] = if a[k] == 0.25 { 0.5 } else { 0.25 };
    ensure!(s != e && e != s, "spectra differing only at {} nm compare equal", 380 + 10 * k);
    // mutation through the iterator reaches every sample, once
    let mut m = s.clone();
    let mut n = 0;
    for (i, x) in m.iter_mut().enumerate() {
        ensure!(i < 40 && x.to_bits() == a[i].to_bits(), "iter_mut() element {} is {}", i, x);
        *x = b[i];
        n += 1;
    }
    ensure!(n == 40 && same(&m.values, &b), "iter_mut() visited {} samples", n);
    ensure!(same(&s.values, &a), "mutating a clone changed the original");
    let v = a[k];
    let kc = SPD::constant(v);
    ensure!(kc.values.iter().all(|x| x.to_bits() == v.to_bits()), "constant({}) is {:?}", v, kc.values);
    let w = xyz32(kc.to_xyz());
    // the D65 white of the fixed grid
    for (i, white) in [95.04653, 100.0, 108.89707].iter().enumerate() {
        ensure!(close(w[i], white * v as f64, (2e-5 + 64.0 * E32 * white) * v.abs() as f64 + 1e-36), "constant {} has component {} = {} instead of {}", v, i, w[i], white * v as f64);
    }
    // printing shows every sample
    for text in [format!("{}", s), format!("{:?}", s)] {
        let nums: Vec<f32> = text.trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.trim().parse().ok()).collect();
        ensure!(same(&nums, &a), "printed as {}", text);
    }
    o.nontrivial_if(a != b && a.windows(2).any(|w| w[0] != w[1]));
    o.class_if(a == b, "equal");
    Ok(())
}

/// Two spectra of any bit patterns
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    a: Vec<u32>,
    b: Vec<u32>,
    // samples of b that are those of a
    shared: bool,
    k: usize,
}

fn raw() -> BoxedStrategy<Raw> {
    let one = prop_oneof![
        2 => any::<u32>(),
        2 => (-4.0f32..4.0).prop_map(f32::to_bits),
        1 => select(vec![0.0f32, -0.0, 1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN_POSITIVE]).prop_map(f32::to_bits),
        1 => 1u32..0x0080_0000,
    ];
    let v = proptest::collection::vec(one, 40..=40);
    // without NaN, which never equals itself
    let plain = proptest::collection::vec(select(vec![0.0f32, -0.0, 1.0, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, 1e-40]).prop_map(f32::to_bits), 40..=40);
    (prop_oneof![2 => v.clone(), 1 => plain], v, prop_oneof![1 => Just(true), 2 => Just(false)], 0usize..40).prop_map(|(a, b, shared, k)| Raw { a, b, shared, k }).boxed()
}

fn check_raw(c: &Raw, o: &mut Obs) -> CheckResult {
    let floats = |v: &[u32]| -> [f32; 40] { std::array::from_fn(|i| f32::from_bits(v[i])) };
    let a = floats(&c.a);
    let mut b = floats(&c.b);
    if c.shared {
        let other = b[c.k];
        b = a;
        b[c.k] = other;
    }
    let alike = |x: f32, y: f32| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan());
    let same = |x: &[f32], y: &[f32]| x.len() == 40 && x.iter().zip(y).all(|(p, q)| alike(*p, *q));
    let (s, t) = (SPD::new(a), SPD::new(b));
    ensure!(same(&s.values, &a) && same(&s.clone().values, &a), "new() stored {:?} for {:?}", s.values, a);
    ensure!(same(&s.iter().copied().collect::<Vec<_>>(), &a), "iter() gives {:?} for {:?}", s.iter().collect::<Vec<_>>(), a);
    let p = &s * &t;
    for i in 0..40 {
        ensure!(alike(p.values[i], a[i] * b[i]), "product of {:e} and {:e} at {} nm is {:e}", a[i], b[i], 380 + 10 * i, p.values[i]);
    }
    ensure!((s == t) == (a == b) && (t == s) == (a == b), "equality of {:?} and {:?} is {}", a, b, s == t);
    ensure!((s == s.clone()) == (a == a.clone()), "equality of {:?} with its copy is {}", a, s == s.clone());
    let mut m = s.clone();
    m.iter_mut().zip(&b).for_each(|(x, y)| *x = *y);
    ensure!(same(&m.values, &b) && same(&s.values, &a), "written {:?} through iter_mut(), stored {:?}", b, m.values);
    let kc = SPD::constant(a[c.k]);
    ensure!(same(&kc.values, &[a[c.k]; 40]), "constant({:e}) is {:?}", a[c.k], kc.values);
    o.nontrivial();
    o.class_if(a.iter().any(|x| x.is_nan()), "NaN");
    o.class_if(a.iter().any(|x| x.is_infinite()), "infinite");
    o.class_if(a.iter().any(|x| x.is_subnormal()), "subnormal");
    o.class_if(a == b, "equal");
    Ok(())
}

fn fixed_pair() -> BoxedStrategy<Fixed> {
    (fixed_values(), prop_oneof![8 => fixed_values().prop_map(Some), 1 => Just(None)], 0usize..40)
        .prop_map(|(v, w, k)| Fixed {
            w: w.unwrap_or_else(|| v.clone()),
            v,
            k,
        })
        .boxed()
}

pub fn c17() -> Property {
    Property {
        id: "C17",
        rule: "a case counts when its 40 values are not all equal (operations: and the two spectra differ)",
        assumptions: &["values up to 1e6 in magnitude; the observer and D65 tables are taken from the crate and checked by C23", "the AVX path exists only in builds with the avx target feature: the check runs a build without and a build with it"],
        subs: vec![
            sub("conversion", 60_000, 60, || fixed_values().prop_map(|v| Fixed { v, w: vec![], k: 0 }), check_fixed_xyz),
            enumerate(
                "impulses",
                |_| 40,
                |i| Fixed {
                    v: (0..40).map(|j| if j as u64 == i { 1.0 } else { 0.0 }).collect(),
                    w: vec![],
                    k: 0,
                },
                check_fixed_xyz,
            ),
            sub("operations", 100_000, 60, fixed_pair, check_fixed_ops),
            sub("any_bits", 40_000, 60, raw, check_raw),
        ],
    }
}

// ---------------------------------------------------------------- C18

pub fn noise(seed: u32, i: usize) -> f64 {
    let mut z = (seed as u64).wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(i as u64 + 1).wrapping_mul(0xD1342543DE82EF95);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    (z >> 11) as f64 / (1u64 << 53) as f64
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Planes {
    width: u8,
    m: [f64; 9],
    len: usize,
    seed: u32,
    /// contents: noise 0..100, signed noise, ramp, one spike, noise of any magnitude
    kind: u8,
    /// element set to infinity, if any
    bad: Option<f64>,
    /// difference in length of the second and third plane
    extra: [i32; 2],
}

impl Planes {
    #[cfg(target_feature = "avx")]
    fn plane(&self, k: usize) -> Vec<f32> {
        let n = if k == 0 { self.len as i64 } else { (self.len as i64 + self.extra[k - 1] as i64).max(0) } as usize;
        let mut v: Vec<f32> = (0..n)
            .map(|i| {
                let r = noise(self.seed.wrapping_mul(3).wrapping_add(k as u32), i);
                match self.kind {
                    0 => (r * 100.0) as f32,
                    1 => ((r - 0.5) * 10f64.powf(8.0 * noise(self.seed, i * 3 + k) - 4.0)) as f32,
                    2 => i as f32 + 1000.0 * k as f32,
                    4 => ((r - 0.5) * 10f64.powf(36.0 * noise(self.seed, 7) - 18.0)) as f32,
                    _ => {
                        if i == (noise(self.seed, 0) * n as f64) as usize {
                            50.0
                        } else {
                            0.0
                        }
                    }
                }
            })
            .collect();
        if let Some(b) = self.bad {
            if n > 0 && k == 1 {
                v[((b * n as f64) as usize).min(n - 1)] = f32::INFINITY;
            }
        }
        // exactly as long as it is: reads past the end leave the allocation
        v.shrink_to_fit();
        v
    }
}

#[cfg(not(target_feature = "avx"))]
fn check_planes(c: &Planes, o: &mut Obs) -> CheckResult {
    // the function does not exist in this build
    let _ = (c.width, c.m, c.len, c.seed, c.kind, c.bad, c.extra);
    o.class("no avx");
    o.nontrivial();
    Ok(())
}

#[cfg(target_feature = "avx")]
pub fn planes_of(width: u8, m: &colorspace::M3f32, x: &[f32], y: &[f32], z: &[f32]) -> (Vec<f32>, Vec<f32>, Vec<f32>) {
    use colorspace::xyz_slice_to_rgb_avx_planes as f;
    match width {
        0 => f::<simdeez::scalar::Scalar>(m, x, y, z),
        1 => f::<simdeez::sse2::Sse2>(m, x, y, z),
        2 => f::<simdeez::sse41::Sse41>(m, x, y, z),
        _ => f::<simdeez::avx2::Avx2>(m, x, y, z),
    }
}

#[cfg(target_feature = "avx")]
fn check_planes(c: &Planes, o: &mut Obs) -> CheckResult {
    let mut mm = [0.0f32; 9];
    for i in 0..9 {
        mm[i] = c.m[i] as f32;
    }
    let m = colorspace::M3f32::new(mm);
    let (x, y, z) = (c.plane(0), c.plane(1), c.plane(2));
    let name = ["Scalar", "Sse2", "Sse41", "Avx2"][c.width as usize];
    o.class(name);
    if x.len() != y.len() || x.len() != z.len() {
        o.nontrivial();
        o.class("rejected");
        ensure!(panics(|| planes_of(c.width, &m, &x, &y, &z)), "{}: planes of lengths {} {} {} were accepted", name, x.len(), y.len(), z.len());
        return Ok(());
    }
    let (keep_x, keep_y, keep_z) = (x.clone(), y.clone(), z.clone());
    let (r, g, b) = planes_of(c.width, &m, &x, &y, &z);
    ensure!(x == keep_x && y == keep_y && z == keep_z, "{}: input planes changed", name);
    let n = c.len;
    ensure!(r.len() == n && g.len() == n && b.len() == n, "{}: {} elements give planes of {} {} {}", name, n, r.len(), g.len(), b.len());
    let aos: Vec<colorspace::XYZf32> = (0..n).map(|i| colorspace::XYZf32::new(x[i], y[i], z[i])).collect();
    let sc = colorspace::xyz_slice_to_rgb(&m, &aos);
    for i in 0..n {
        let got = [r[i], g[i], b[i]];
        let s = [sc[i].r, sc[i].g, sc[i].b];
        let v = [x[i] as f64, y[i] as f64, z[i] as f64];
        if !v.iter().all(|v| v.is_finite()) {
            continue;
        }
        for k in 0..3 {
            let row = [mm[3 * k] as f64, mm[3 * k + 1] as f64, mm[3 * k + 2] as f64];
            let want = (row[0] * v[0] + row[1] * v[1] + row[2] * v[2]) * 0.01;
            let mag = ((row[0] * v[0]).abs() + (row[1] * v[1]).abs() + (row[2] * v[2]).abs()) * 0.01;
            let tol = 8.0 * E32 * mag + 1e-36;
            ensure!(close(got[k] as f64, want, tol), "{}: element {} of {}, channel {}: {} instead of {}", name, i, n, k, got[k], want);
            ensure!(close(s[k] as f64, got[k] as f64, 2.0 * tol), "{}: element {} of {}, channel {}: {} but the scalar conversion gives {}", name, i, n, k, got[k], s[k]);
        }
    }
    o.nontrivial_if(n > 0);
    o.class_if(n % 8 != 0, "with remainder");
    o.class_if(c.bad.is_some(), "infinite element");
    Ok(())
}

fn plane_matrix() -> BoxedStrategy<[f64; 9]> {
    let spaces: Vec<[f64; 9]> = ref_spaces()
        .iter()
        .map(|s| {
            let m = s.xyz_to_rgb();
            [m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2]]
        })
        .collect();
    prop_oneof![
        3 => select(spaces),
        4 => proptest::array::uniform9(-3.0f64..3.0),
        2 => (0usize..9, -3.0f64..3.0).prop_map(|(k, a)| { let mut m = [0.0; 9]; m[k] = a; m }),
        1 => proptest::array::uniform9(scalar(3.0)),
        1 => (proptest::array::uniform9(-3.0f64..3.0), logu(-15.0, 15.0)).prop_map(|(m, s)| m.map(|v| v * s)),
    ]
    .boxed()
}

pub fn c18() -> Property {
    Property {
        id: "C18",
        rule: "a case counts when the planes have at least one element, or when their lengths differ (must be rejected)",
        assumptions: &["the function exists only in builds with the avx target feature, in which the check runs; widths Scalar, Sse2, Sse41 and Avx2", "lengths up to 4097, in the long cases up to a million (every length up to 300 enumerated for every width)"],
        subs: vec![
            sub(
                "planes",
                150_000,
                60,
                || {
                    (
                        0u8..4,
                        plane_matrix(),
                        len_upto(4097),
                        any::<u32>(),
                        0u8..5,
                        prop_oneof![8 => Just(None), 1 => (0.0f64..1.0).prop_map(Some)],
                        prop_oneof![8 => Just([0, 0]), 1 => proptest::array::uniform2(-40i32..40)],
                    )
                        .prop_map(|(width, m, len, seed, kind, bad, extra)| Planes {
                            width,
                            m,
                            len,
                            seed,
                            kind,
                            bad,
                            extra,
                        })
                },
                check_planes,
            ),
            sub(
                "long planes",
                64,
                20,
                || {
                    (0u8..4, plane_matrix(), huge_len(), any::<u32>(), 0u8..5).prop_map(|(width, m, len, seed, kind)| Planes {
                        width,
                        m,
                        len,
                        seed,
                        kind,
                        bad: None,
                        extra: [0, 0],
                    })
                },
                check_planes,
            ),
            enumerate(
                "every length",
                |t| 4 * if t == Tier::Quick { 301 } else { 2101 },
                |i| Planes {
                    width: (i % 4) as u8,
                    m: [1.0, 2.0, 4.0, -1.0, 0.5, 0.25, 3.0, -0.125, 8.0],
                    len: (i / 4) as usize,
                    seed: i as u32,
                    kind: 0,
                    bad: None,
                    extra: [0, 0],
                },
                check_planes,
            ),
            enumerate(
                "rejected lengths",
                |_| 4 * 20 * 18 * 3,
                |i| {
                    let (w, l, d, which) = (i % 4, i / 4 % 20, i / 80 % 18, i / 1440);
                    let d = if d < 9 { d as i32 - 9 } else { d as i32 - 8 };
                    // a shorter plane cannot be shorter than empty
                    let d = if l as i32 + d < 0 { l as i32 + 1 } else { d };
                    Planes {
                        width: w as u8,
                        m: [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0],
                        len: l as usize,
                        seed: 1,
                        kind: 0,
                        bad: None,
                        extra: match which {
                            0 => [d, 0],
                            1 => [0, d],
                            _ => [d, d],
                        },
                    }
                },
                check_planes,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Uplift {
    a: [f64; 3],
    b: [f64; 3],
    k: f64,
}

fn srgb_from_xyz(xyz: [f64; 3]) -> [f64; 3] {
    let m = rgb_to_xyz_from_primaries(&[[0.64, 0.33], [0.30, 0.60], [0.15, 0.06]], [0.3127, 0.3290]);
    m3_vec(&m3_inv(&m), [xyz[0] / 100.0, xyz[1] / 100.0, xyz[2] / 100.0])
}

fn check_uplift(c: &Uplift, o: &mut Obs) -> CheckResult {
    let up = |x: [f64; 3]| uplifting::uplift_my(rgb_of::<f64>(x));
    let a = up(c.a);
    let big = c.a.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let sa = of_vspd(&a);
    ensure!(sa.len() == 81, "{} samples instead of 81", sa.len());
    let g = grid(380.0, 5.0, 80);
    for (s, w) in sa.iter().zip(&g) {
        ensure!(close(s.0, *w, 1e-9), "a sample is at {} instead of {}", s.0, w);
    }
    let sh = a.shape();
    ensure!(close(sh.start, 380.0, 1e-9) && close(sh.end, 780.0, 1e-9) && format!("{}", sh.interval).contains('5'), "shape is {}", sh);
    // the exported bases, both forms
    let (r, gr, bl) = uplifting::my_basis();
    for (what, basis) in [("my_basis()", [&r, &gr, &bl]), ("MY_*", [&*uplifting::MY_RED, &*uplifting::MY_GREEN, &*uplifting::MY_BLUE])] {
        let v: Vec<Vec<f64>> = basis.iter().map(|s| s.values().collect()).collect();
        ensure!(v.iter().all(|v| v.len() == 81), "{}: basis spectra have {} {} {} samples", what, v[0].len(), v[1].len(), v[2].len());
        for s in basis {
            let sh = s.shape();
            ensure!(close(sh.start, 380.0, 1e-9) && close(sh.end, 780.0, 1e-9) && format!("{}", sh.interval).contains('5'), "{}: the shape is {}", what, sh);
            ensure!(s.iter().zip(&g).all(|(s, w)| close(s.nm, *w, 1e-9)), "{}: not sampled 380-780 nm at 5 nm", what);
        }
        for i in 0..81 {
            let want = v[0][i] * c.a[0] + v[1][i] * c.a[1] + v[2][i] * c.a[2];
            ensure!(close(sa[i].1, want, 1e-12 * big), "uplift of {:?} at {} nm is {}, the combination of {} is {}", c.a, sa[i].0, sa[i].1, what, want);
        }
    }
    // back through the spectrum
    let xyz = tuple(a.to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE));
    let back = srgb_from_xyz(xyz);
    for k in 0..3 {
        ensure!(close(back[k], c.a[k], 0.002 * big), "{:?} comes back as {:?}", c.a, back);
    }
    // and through an independent integration
    let (ref_back, _) = ref_xyz(&sa, &of_vspd(&illuminant::spd::D65), &Method::Nm5);
    let back = srgb_from_xyz(ref_back);
    for k in 0..3 {
        ensure!(close(back[k], c.a[k], 0.002 * big), "{:?} comes back as {:?} (reference integration)", c.a, back);
    }
    // linear
    let lin: Vec<f64> = up([c.a[0] + c.k * c.b[0], c.a[1] + c.k * c.b[1], c.a[2] + c.k * c.b[2]]).values().collect();
    let vb: Vec<f64> = up(c.b).values().collect();
    let bb = c.b.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    for i in 0..81 {
        let want = sa[i].1 + c.k * vb[i];
        ensure!(close(lin[i], want, 1e-12 * (big + c.k.abs() * bb)), "uplift is not linear at {} nm: {} instead of {}", sa[i].0, lin[i], want);
    }
    if c.a.iter().all(|x| (0.0..=1.0).contains(x)) {
        o.class("in [0,1]");
        for s in &sa {
            ensure!((-0.001..=1.001).contains(&s.1), "reflectance of {:?} at {} nm is {}", c.a, s.0, s.1);
        }
    }
    if c.a == [1.0; 3] {
        o.class("white");
        for s in &sa {
            ensure!(close(s.1, 1.0, 1e-4), "white reflects {} at {} nm", s.1, s.0);
        }
    }
    o.nontrivial_if(c.a[0] != c.a[1] || c.a[1] != c.a[2]);
    let _ = rgb_d(rgb_of::<f64>(c.a));
    Ok(())
}

pub fn c19() -> Property {
    Property {
        id: "C19",
        rule: "a case counts when its channels are not all equal",
        assumptions: &["channels up to 1e4 in magnitude; the observer, D65 and basis tables are taken from the crate and checked by C23"],
        subs: vec![
            sub(
                "uplift",
                40_000,
                60,
                || {
                    (prop_oneof![3 => triple(unit()), 1 => triple(scalar(4.0))], triple(scalar(2.0)), scalar(1.0)).prop_map(|(a, b, k)| Uplift { a, b, k })
                },
                check_uplift,
            ),
            enumerate(
                "corners",
                |_| 125,
                |i| Uplift {
                    a: [(i % 5) as f64 / 4.0, (i / 5 % 5) as f64 / 4.0, (i / 25) as f64 / 4.0],
                    b: [1.0, -1.0, 0.5],
                    k: 0.5,
                },
                check_uplift,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cct {
    single: bool,
    /// bits of the f64 temperature
    bits: u64,
}

fn daylight_x(t: f64, low: bool) -> f64 {
    // Horner in 1/T, constants of CIE 15
    let u = 1000.0 / t;
    if low {
        ((-4.6070 * u + 2.9678) * u + 0.09911) * u + 0.244063
    } else {
        ((-2.0064 * u + 1.9018) * u + 0.24748) * u + 0.237040
    }
}

fn check_cct(c: &Cct, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &Cct, o: &mut Obs) -> CheckResult {
        let t = T::of(f64::from_bits(c.bits));
        let d = t.d();
        let r = cct(t);
        if !(4000.0..=25000.0).contains(&d) {
            o.class(if d.is_nan() {
                "NaN"
            } else if d.is_infinite() {
                "infinite"
            } else {
                "out of range"
            });
            o.nontrivial();
            ensure!(r.is_err(), "{} K was accepted", d);
            return Ok(());
        }
        let v = match r {
            Ok(v) => v,
            Err(_) => return Err(format!("{} K was rejected", d)),
        };
        o.nontrivial();
        o.class(if d <= 7000.0 { "4000..7000" } else { "7000..25000" });
        let x = daylight_x(d, d <= 7000.0);
        let y = -3.0 * x * x + 2.87 * x - 0.275;
        let tol = if T::SINGLE { 1e-6 } else { 1e-14 };
        ensure!(v.Y.d() == 1.0, "{} K has Y = {}", d, v.Y.d());
        ensure!(close(v.x.d(), x, tol), "x of {} K is {} instead of {}", d, v.x.d(), x);
        ensure!(close(v.y.d(), y, 2.0 * tol), "y of {} K is {} instead of {}", d, v.y.d(), y);
        // the other formula agrees with it near the join
        if (d - 7000.0).abs() < 1e-3 {
            o.class("join");
            let other = daylight_x(d, d > 7000.0);
            ensure!(close(v.x.d(), other, 0.0005), "jump of {} at {} K", v.x.d() - other, d);
        }
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CctPair {
    single: bool,
    a: f64,
    b: f64,
}

fn check_cct_pair(c: &CctPair, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &CctPair, o: &mut Obs) -> CheckResult {
        let (a, b) = (T::of(c.a.min(c.b)), T::of(c.a.max(c.b)));
        let low = |t: T| t.d() <= 7000.0;
        // x falls by at least 1e-7 per K anywhere on the locus
        let sep = if T::SINGLE { 12.0 } else { 1e-6 };
        let (va, vb) = (cct(a).map_err(|_| format!("{} K was rejected", a.d()))?, cct(b).map_err(|_| format!("{} K was rejected", b.d()))?);
        if low(a) == low(b) {
            if b.d() - a.d() < sep {
                return Ok(());
            }
            o.nontrivial();
            ensure!(va.x > vb.x, "x does not decrease from {} K ({}) to {} K ({})", a.d(), va.x.d(), b.d(), vb.x.d());
        } else if b.d() - a.d() < 2.0 {
            o.nontrivial();
            o.class("across the join");
            let slope = 3e-5 * (b.d() - a.d());
            ensure!(close(va.x.d(), vb.x.d(), 0.0005 + slope) && close(va.y.d(), vb.y.d(), 0.0005 + slope), "jump from {:?} at {} K to {:?} at {} K", va, a.d(), vb, b.d());
        }
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

pub fn c20() -> Property {
    let temp = || {
        prop_oneof![
            5 => 4000.0f64..=25000.0,
            2 => 3900.0f64..4100.0,
            2 => 6900.0f64..7100.0,
            2 => 24900.0f64..25100.0,
            3 => near(&[4000.0, 7000.0, 25000.0]),
            1 => (3000u32..27000).prop_map(|t| t as f64),
            2 => -1e5f64..1e5,
            1 => scalar(12.0),
            1 => select(vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, -5000.0, f64::MAX, f64::MIN_POSITIVE, -f64::NAN, 5e-324]),
        ]
    };
    Property {
        id: "C20",
        rule: "every temperature counts; a pair when the two are far enough apart for their x to differ after rounding, or close together on either side of 7000 K",
        assumptions: &["at exactly 7000 K the 4000-7000 K formula is the published one", "pairs closer than 12 K (single) or 1e-6 K (double) are not required to be ordered"],
        subs: vec![
            sub(
                "formula",
                600_000,
                100,
                move || (any::<bool>(), prop_oneof![8 => temp().prop_map(|t| t.to_bits()), 1 => any::<u64>(), 1 => any::<u32>().prop_map(|b| (f32::from_bits(b) as f64).to_bits())]).prop_map(|(single, bits)| Cct { single, bits }),
                check_cct,
            ),
            enumerate(
                "every kelvin",
                |_| 2 * 26001,
                |i| Cct {
                    single: i % 2 == 1,
                    bits: ((i / 2) as f64).to_bits(),
                },
                check_cct,
            ),
            sub(
                "order",
                300_000,
                100,
                || {
                    prop_oneof![
                        4 => (any::<bool>(), 4000.0f64..=25000.0, 4000.0f64..=25000.0).prop_map(|(single, a, b)| CctPair { single, a, b }),
                        4 => (any::<bool>(), 4000.0f64..=24900.0, logu(-6.0, 2.0)).prop_map(|(single, a, d)| CctPair { single, a, b: a + d }),
                        1 => (any::<bool>(), 6999.0f64..=7000.0, 7000.0f64..=7001.0).prop_map(|(single, a, b)| CctPair { single, a, b }),
                    ]
                },
                check_cct_pair,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Observer {
    Cie,
    Made(SpecCase),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nit {
    s: SpecCase,
    v2: Vec<f64>,
    k: [f64; 2],
    obs: Observer,
    junk: f64,
}

fn made_cmf(o: &Observer, junk: Option<f64>) -> CMF {
    let c = &cmf::CIE_1931_2_DEGREE;
    let y: VSPD = match o {
        Observer::Cie => of_vspd(&c.y_bar).into_iter().collect(),
        Observer::Made(s) => s.samples().into_iter().collect(),
    };
    let side = |k: f64| -> VSPD {
        match junk {
            None => of_vspd(&y).into_iter().collect(),
            Some(j) => of_vspd(&y).into_iter().map(|p| (p.0, (p.1 + k) * j - 3.0)).collect(),
        }
    };
    CMF {
        x_bar: side(1.0),
        y_bar: of_vspd(&y).into_iter().collect(),
        z_bar: side(2.0),
    }
}

fn check_nit(c: &Nit, o: &mut Obs) -> CheckResult {
    let obs = made_cmf(&c.obs, None);
    let y = of_vspd(&obs.y_bar);
    let r = Resampler::new(&y);
    let ymax = y.iter().fold(0.0f64, |m, p| m.max(p.1.abs()));
    // Sprague interpolation of well-behaved data stays within a few times its range
    let rmax = refspec::Sprague::new(&y).max * 4.0;
    let s = c.s.samples();
    let n = s.len() as f64;
    let mean = |s: &Spec| 683.0 * s.iter().map(|p| p.1 * r.at(p.0)).sum::<f64>() / n;
    let smax = |s: &Spec| s.iter().fold(0.0f64, |m, p| m.max(p.1.abs()));
    let last = s[s.len() - 1].0.abs().max(1.0);
    let tol = |s: &Spec| 683.0 * smax(s) * (1e-11 * rmax + r.tol(last));
    let make = |s: &Spec| VSPD::new(to_samples(s));
    let sp = make(&s);
    let got = photometry::spd_to_nit(&sp, &obs);
    let want = mean(&s);
    ensure!(close(got, want, tol(&s)), "luminance is {} instead of {} (tolerance {:e})", got, want, tol(&s));
    ensure!(bits(&of_vspd(&sp)) == bits(&s), "spd_to_nit changed its input");
    // the observer's other functions do not matter
    let other = photometry::spd_to_nit(&sp, &made_cmf(&c.obs, Some(c.junk)));
    ensure!(close(got, other, 1e-12 * got.abs()), "luminance {} becomes {} when x and z change", got, other);
    // linear
    let s2: Spec = s.iter().zip(c.v2.iter().cycle()).map(|(p, v)| (p.0, *v)).collect();
    let mix: Spec = s.iter().zip(&s2).map(|(a, b)| (a.0, c.k[0] * a.1 + c.k[1] * b.1)).collect();
    let g2 = photometry::spd_to_nit(&make(&s2), &obs);
    let gm = photometry::spd_to_nit(&make(&mix), &obs);
    let t = 683.0 * 1e-11 * rmax * (c.k[0].abs() * smax(&s) + c.k[1].abs() * smax(&s2));
    ensure!(close(gm, c.k[0] * got + c.k[1] * g2, t), "luminance is not linear: {} instead of {}", gm, c.k[0] * got + c.k[1] * g2);
    if let Observer::Cie = c.obs {
        o.class("CIE observer");
        let pos: Spec = s.iter().map(|p| (p.0, p.1.abs())).collect();
        let g = photometry::spd_to_nit(&make(&pos), &obs);
        ensure!(g >= -1e-9 * 683.0 * smax(&pos), "a non-negative spectrum has luminance {}", g);
    } else {
        o.class("made observer");
    }
    o.nontrivial_if(got != 0.0 && s.windows(2).any(|w| w[0].1 != w[1].1));
    o.class_if(s[0].0 < y[0].0, "starts before the observer");
    o.class_if(s[s.len() - 1].0 > y[y.len() - 1].0, "ends after the observer");
    let _ = ymax;
    Ok(())
}

/// A uniformly sampled spectrum, mostly on top of the visible range
fn lit_case() -> BoxedStrategy<SpecCase> {
    let vis = (300.0f64..700.0, select(vec![1.0, 5.0, 10.0, 2.0, 20.0, 0.5, 2.5, 7.0]), values(count(90)), any::<bool>()).prop_map(|(s, interval, v, round)| SpecCase {
        start: if round { (s / 10.0).round() * 10.0 } else { s },
        interval,
        odd: vec![],
        v,
    });
    prop_oneof![3 => vis, 1 => uniform_case(90)].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongNit {
    start: i32,
    // the interval as a power of two, so that every wavelength is exact
    halvings: i32,
    n: usize,
    v: Vec<f64>,
}

/// More samples than any counter narrower than the address space holds
fn check_long_nit(c: &LongNit, o: &mut Obs) -> CheckResult {
    let step = 0.5f64.powi(c.halvings);
    let s: Spec = (0..c.n).map(|i| (c.start as f64 + i as f64 * step, c.v[i % c.v.len()])).collect();
    let obs = made_cmf(&Observer::Cie, None);
    let y = of_vspd(&obs.y_bar);
    let r = Resampler::new(&y);
    let got = photometry::spd_to_nit(&VSPD::new(to_samples(&s)), &obs);
    let want = 683.0 * s.iter().map(|p| p.1 * r.at(p.0)).sum::<f64>() / c.n as f64;
    let m = s.iter().fold(0.0f64, |m, p| m.max(p.1.abs()));
    let tol = 683.0 * m * (1e-10 + r.tol(s[c.n - 1].0.abs().max(1.0)));
    ensure!(close(got, want, tol), "luminance of {} samples is {} instead of {} (tolerance {:e})", c.n, got, want, tol);
    o.nontrivial_if(want.abs() > 1e3 * tol);
    o.class_if(c.n > 65536, "more than 65536 samples");
    Ok(())
}

pub fn c21() -> Property {
    Property {
        id: "C21",
        rule: "a case counts when the spectrum is not constant and its luminance is not zero",
        assumptions: &["uniformly sampled spectra (the function refuses varying ones)", "non-negativity is decided with the CIE observer, up to 1e-9 of the maximum (interpolation between its samples may undershoot zero)"],
        subs: vec![
            sub(
            "luminance",
            100_000,
            60,
            || {
                (
                    lit_case(),
                    proptest::collection::vec(scalar(2.0), 1..20),
                    proptest::array::uniform2(-5.0f64..5.0),
                    prop_oneof![2 => Just(Observer::Cie), 1 => uniform_case(60).prop_map(Observer::Made)],
                    -4.0f64..4.0,
                )
                    .prop_map(|(s, v2, k, obs, junk)| Nit { s, v2, k, obs, junk })
            },
            check_nit,
            ),
            sub(
                "long",
                60,
                20,
                || {
                    (200i32..500, prop_oneof![3 => 7i32..10, 1 => 0i32..7], prop_oneof![1 => 1000usize..60_000, 3 => 60_000usize..140_000], proptest::collection::vec(0.0f64..2.0, 1..20))
                        .prop_map(|(start, halvings, n, v)| LongNit { start, halvings, n, v })
                },
                check_long_nit,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C23

fn golden() -> &'static Tables {
    static G: OnceLock<Tables> = OnceLock::new();
    G.get_or_init(|| serde_json::from_str(include_str!("../golden.json")).expect("golden.json"))
}

fn actual() -> &'static Tables {
    static A: OnceLock<Tables> = OnceLock::new();
    A.get_or_init(tables::all)
}

fn rows() -> &'static Vec<(String, String)> {
    static R: OnceLock<Vec<(String, String)>> = OnceLock::new();
    R.get_or_init(|| {
        let mut v: std::collections::BTreeSet<(String, String)> = Default::default();
        for (n, m) in golden() {
            for k in m.keys() {
                v.insert((n.clone(), k.clone()));
            }
        }
        v.into_iter().collect()
    })
}

fn check_cell(c: &tables::Cell, o: &mut Obs) -> CheckResult {
    let want = golden().get(&c.table).and_then(|t| t.get(&c.row));
    let got = actual().get(&c.table).and_then(|t| t.get(&c.row));
    let (w, g) = match (want, got) {
        (Some(w), Some(g)) => (w, g),
        (Some(_), None) => return Err(format!("{}: entry {} is missing", c.table, c.row)),
        (None, Some(_)) => return Err(format!("{}: unexpected entry {}", c.table, c.row)),
        (None, None) => return Err(format!("{}: no entry {}", c.table, c.row)),
    };
    let rel = if c.table.starts_with("weights") || c.table.starts_with("babelcolor") { 1e-6 } else { 1e-12 };
    ensure!(w.len() == g.len(), "{}[{}] has {} values instead of {}", c.table, c.row, g.len(), w.len());
    for (i, (a, b)) in g.iter().zip(w).enumerate() {
        ensure!(close(*a, *b, rel * b.abs()), "{}[{}] value {} is {} instead of {}", c.table, c.row, i, a, b);
    }
    o.nontrivial_if(w.iter().any(|x| *x != 0.0));
    Ok(())
}

fn names() -> Vec<String> {
    golden()["checker.names"].keys().cloned().collect()
}

/// Least squares of b (n x 1) on the columns of a (n x k), by normal
/// equations in the few unknowns needed here; returns the largest residual
fn lstsq3(a: &[[f64; 3]], b: &[f64]) -> ([f64; 3], f64) {
    let mut n = [[0.0; 3]; 3];
    let mut r = [0.0; 3];
    for (x, y) in a.iter().zip(b) {
        for i in 0..3 {
            for j in 0..3 {
                n[i][j] += x[i] * x[j];
            }
            r[i] += x[i] * y;
        }
    }
    let mut s = m3_vec(&m3_inv(&n), r);
    // one step of refinement
    let mut r2 = [0.0; 3];
    for (x, y) in a.iter().zip(b) {
        let e = y - (s[0] * x[0] + s[1] * x[1] + s[2] * x[2]);
        for i in 0..3 {
            r2[i] += x[i] * e;
        }
    }
    let d = m3_vec(&m3_inv(&n), r2);
    for i in 0..3 {
        s[i] += d[i];
    }
    let worst = a.iter().zip(b).map(|(x, y)| (y - (s[0] * x[0] + s[1] * x[1] + s[2] * x[2])).abs()).fold(0.0, f64::max);
    (s, worst)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Relation {
    CheckerLinear(String, usize),
    CheckerCurve(String),
    CheckerAcesFromSrgb(usize),
    CheckerXyz(String),
    Keys(String),
    DaylightLocus(String),
    D60Combination,
    WhiteOfSpectrum(String),
    Babel(String),
    Basis,
    Weights,
    Observer,
    Extent,
}

fn relations() -> &'static Vec<Relation> {
    static R: OnceLock<Vec<Relation>> = OnceLock::new();
    R.get_or_init(|| {
        let mut v = Vec::new();
        for s in tables::RGB_SETS {
            for k in 0..3 {
                v.push(Relation::CheckerLinear(s.to_string(), k));
            }
            v.push(Relation::CheckerCurve(s.to_string()));
        }
        for k in 0..3 {
            v.push(Relation::CheckerAcesFromSrgb(k));
        }
        for n in names() {
            v.push(Relation::CheckerXyz(n.clone()));
            v.push(Relation::Babel(n));
        }
        for t in golden().keys().filter(|t| t.starts_with("checker.") && !t.contains("spectral") && *t != "checker.DARK_SKIN") {
            v.push(Relation::Keys(t.clone()));
        }
        for d in ["D50", "D55", "D60", "D65"] {
            v.push(Relation::WhiteOfSpectrum(d.into()));
            v.push(Relation::DaylightLocus(d.into()));
        }
        v.extend([Relation::D60Combination, Relation::Basis, Relation::Weights, Relation::Observer, Relation::Extent]);
        v
    })
}

fn table(n: &str) -> Result<&'static std::collections::BTreeMap<String, Vec<f64>>, String> {
    actual().get(n).ok_or_else(|| format!("no table {}", n))
}

fn row3(t: &str, k: &str) -> Result<[f64; 3], String> {
    let r = table(t)?.get(k).ok_or_else(|| format!("{}: entry {} is missing", t, k))?;
    ensure!(r.len() == 3, "{}[{}] has {} values", t, k, r.len());
    Ok([r[0], r[1], r[2]])
}

fn series(t: &str) -> Result<Vec<f64>, String> {
    Ok(table(t)?.values().map(|r| r[r.len() - 1]).collect())
}

fn check_relation(c: &Relation, o: &mut Obs) -> CheckResult {
    o.nontrivial();
    let nm = names();
    match c {
        Relation::CheckerLinear(set, k) => {
            let t = format!("checker.{}.linear", set);
            let mut a = Vec::new();
            let mut b = Vec::new();
            for n in &nm {
                a.push(row3("checker.XYZ_D65", n)?.map(|x| x / 100.0));
                b.push(row3(&t, n)?[*k]);
            }
            let (m, worst) = lstsq3(&a, &b);
            ensure!(worst < 1e-11, "{}: channel {} is not linear in the patch XYZ (coefficients {:?}, residual {:e})", t, k, m, worst);
        }
        Relation::CheckerCurve(set) => {
            let (l, e) = (format!("checker.{}.linear", set), format!("checker.{}.encoded", set));
            let mut p = Vec::new();
            for n in &nm {
                let (a, b) = (row3(&l, n)?, row3(&e, n)?);
                for k in 0..3 {
                    p.push((a[k], b[k], n));
                }
            }
            p.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
            for w in p.windows(2) {
                ensure!(w[0].1 <= w[1].1 + 1e-12, "{}: encoded value of {} is not above that of {}", set, w[1].2, w[0].2);
            }
        }
        Relation::CheckerAcesFromSrgb(k) => {
            let mut a = Vec::new();
            let mut b = Vec::new();
            for n in &nm {
                a.push(row3("checker.SRGB.linear", n)?);
                b.push(row3("checker.ACES_FROM_SRGB", n)?[*k]);
            }
            let (m, worst) = lstsq3(&a, &b);
            ensure!(worst < 1e-11, "ACES_FROM_SRGB: channel {} is not linear in SRGB_LINEAR ({:?}, residual {:e})", k, m, worst);
        }
        Relation::CheckerXyz(n) => {
            // the patch XYZ is that of its spectrum under D65
            let s: Spec = table(&format!("checker.spectral.{}", n))?.values().map(|r| (r[0], r[1])).collect();
            let (w, _) = ref_xyz(&s, &of_vspd(&illuminant::spd::D65), &Method::Weights);
            let g = row3("checker.XYZ_D65", n)?;
            for k in 0..3 {
                ensure!(close(g[k], w[k], 1e-9), "XYZ_D65[{}] is {:?}, its spectrum gives {:?}", n, g, w);
            }
        }
        Relation::Keys(t) => {
            let k: Vec<String> = table(t)?.keys().cloned().collect();
            ensure!(k == nm, "{}: keys are {:?}", t, k);
            for (n, r) in table(t)? {
                ensure!(r.iter().all(|x| x.is_finite()), "{}[{}] is {:?}", t, n, r);
            }
        }
        Relation::DaylightLocus(d) => {
            // published spectra come from their chromaticity by the CIE
            // daylight relation: successive differences follow S0, S1, S2, so
            // every spectrum lies in the plane spanned by the other three
            let all = ["D50", "D55", "D60", "D65"];
            let other: Vec<Vec<f64>> = all.iter().filter(|x| **x != d.as_str()).map(|x| series(&format!("illuminant.{}", x))).collect::<Result<_, _>>()?;
            let b = series(&format!("illuminant.{}", d))?;
            let n = 97;
            ensure!(b.len() >= n && other.iter().all(|v| v.len() >= n), "a daylight spectrum has fewer than 97 samples");
            let a: Vec<[f64; 3]> = (0..n).map(|i| [other[0][i], other[1][i], other[2][i]]).collect();
            let (m, worst) = lstsq3(&a, &b[..n]);
            ensure!(worst < 5e-3, "{} is not a CIE daylight: residual {} against the others ({:?})", d, worst, m);
        }
        Relation::D60Combination => {
            let v: Vec<Vec<f64>> = ["D50", "D55", "D65"].iter().map(|x| series(&format!("illuminant.{}", x))).collect::<Result<_, _>>()?;
            let b = series("illuminant.D60")?;
            ensure!(b.len() == 107 && v.iter().all(|v| v.len() == 97), "daylight spectra have {} {} {} {} samples", v[0].len(), v[1].len(), b.len(), v[2].len());
            let a: Vec<[f64; 3]> = (0..97).map(|i| [v[0][i], v[1][i], v[2][i]]).collect();
            let (_, worst) = lstsq3(&a, &b[..97]);
            ensure!(worst < 1e-3, "D60 deviates by {} from the daylight of D50, D55 and D65", worst);
            for (x, d) in v.iter().zip(["D50", "D55", "D65"]) {
                ensure!(close(x[52], 100.0, 1e-9), "{} is {} at 560 nm", d, x[52]);
            }
        }
        Relation::WhiteOfSpectrum(d) => {
            let s: Spec = table(&format!("illuminant.{}", d))?.values().map(|r| (r[0], r[1])).collect();
            let one: Spec = vec![(360.0, 1.0), (780.0, 1.0)];
            let (w, _) = ref_xyz(&one, &s, &Method::Nm1);
            let t = w[0] + w[1] + w[2];
            let xy = row3("white", d)?;
            ensure!(close(xy[2], 1.0, 0.0), "white {} has Y = {}", d, xy[2]);
            ensure!(close(w[0] / t, xy[0], 2e-4) && close(w[1] / t, xy[1], 2e-4), "{} has chromaticity ({}, {}) but its white is {:?}", d, w[0] / t, w[1] / t, xy);
        }
        Relation::Babel(n) => {
            let a = series(&format!("checker.spectral.{}", n))?;
            let b = series(&format!("babelcolor.{}", n))?;
            ensure!(a.len() == 36 && b.len() == 40, "{}: {} and {} samples", n, a.len(), b.len());
            for i in 0..40 {
                let w = a[i.min(35)];
                ensure!(close(b[i], w, 1e-6), "BABELCOLOR[{}] at {} nm is {}, SPECTRAL has {}", n, 380 + 10 * i, b[i], w);
            }
        }
        Relation::Basis => {
            let t = |n: &str| series(&format!("uplift.{}", n));
            for (a, b) in [("MY_RED", "basis.r"), ("MY_GREEN", "basis.g"), ("MY_BLUE", "basis.b")] {
                ensure!(t(a)? == t(b)?, "{} differs from my_basis()", a);
            }
            let (r, g, b) = (t("MY_RED")?, t("MY_GREEN")?, t("MY_BLUE")?);
            for i in 0..r.len() {
                ensure!(close(r[i] + g[i] + b[i], 1.0, 2e-5), "the uplift bases add up to {} at sample {}", r[i] + g[i] + b[i], i);
            }
            ensure!(series("checker.DARK_SKIN")? == series("checker.spectral.dark_skin")?, "DARK_SKIN differs from the table");
        }
        Relation::Weights => {
            let w = [series("weights.x")?, series("weights.y")?, series("weights.z")?];
            ensure!(w.iter().all(|w| w.len() == 40), "weights have {} {} {} samples", w[0].len(), w[1].len(), w[2].len());
            for i in 0..40 {
                for k in 0..3 {
                    let want = weights()[i][k];
                    ensure!(close(w[k][i], want, 2e-6 * want.abs().max(0.1)), "weight {} at {} nm is {} instead of {}", k, 380 + 10 * i, w[k][i], want);
                }
            }
        }
        Relation::Extent => {
            // nothing beyond the published entries
            for (t, m) in actual() {
                let w = golden().get(t).ok_or_else(|| format!("unexpected table {}", t))?;
                for k in m.keys() {
                    ensure!(w.contains_key(k), "{}: unexpected entry {}", t, k);
                }
            }
        }
        Relation::Observer => {
            let s: Vec<Vec<f64>> = ["cmf.x", "cmf.y", "cmf.z"].iter().map(|t| series(t)).collect::<Result<_, _>>()?;
            // the published sums of the 1 nm table
            for (v, (want, n)) in s.iter().zip([(106.865469489595, "x"), (106.856917101172, "y"), (106.892251278636, "z")]) {
                ensure!(v.len() == 471, "{} has {} samples", n, v.len());
                let sum: f64 = v.iter().sum();
                ensure!(close(sum, want, 1e-9), "the {} function sums to {} instead of {}", n, sum, want);
                ensure!(v.iter().all(|x| *x >= 0.0), "negative {} value", n);
            }
            // smooth: no digit of any entry is off by more than the fourth
            // difference allows
            for (v, n) in s.iter().zip(["x", "y", "z"]) {
                for i in 2..v.len() - 2 {
                    let d4 = v[i - 2] - 4.0 * v[i - 1] + 6.0 * v[i] - 4.0 * v[i + 1] + v[i + 2];
                    ensure!(d4.abs() < 6e-3, "the {} function has a kink at {} nm ({})", n, 360 + i, d4);
                }
            }
            let ypeak = s[1].iter().cloned().fold(0.0, f64::max);
            ensure!(close(ypeak, 1.0, 1e-3) && close(s[1][555 - 360], 1.0, 1e-3), "the y function peaks at {}", ypeak);
        }
    }
    Ok(())
}

pub fn c23() -> Property {
    Property {
        id: "C23",
        rule: "every row of every bundled table is enumerated; a row counts when it is not all zero, a relation always",
        assumptions: &["the published values are the snapshot harness/golden.json of the tables at the pinned commit, cross-checked by the relations", "1e-12 relative (1e-6 for single-precision tables) is allowed so that reformatting a literal stays admissible"],
        subs: vec![
            enumerate(
                "rows",
                |_| rows().len() as u64,
                |i| {
                    let (t, r) = rows()[i as usize].clone();
                    tables::Cell { table: t, row: r }
                },
                check_cell,
            ),
            enumerate("relations", |_| relations().len() as u64, |i| relations()[i as usize].clone(), check_relation),
        ],
    }
}
