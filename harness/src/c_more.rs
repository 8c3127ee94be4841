//! C25 printing, C26 whole pipelines.
use crate::c_color::*;
use crate::c_spec::{illum, method, of_vspd, ref_xyz, reflectance, spec_case, to_samples, tuple, Illum, Method, SpecCase};
use crate::engine::*;
use crate::fp::*;
use crate::gen::*;
use crate::refcolor::*;
use crate::{by_precision, ensure};
use colorspace::lab::{delta_E_1976, lab, Lab};
use colorspace::rgb::{rgbaf32, RGBf};
use colorspace::vspd::{Interval, Sample};
use colorspace::xyz::XYZ;
use colorspace::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C25

/// The numbers of a printed text, in order
fn numbers(s: &str) -> Vec<&str> {
    s.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '+')).filter(|t| t.parse::<f64>().is_ok()).collect()
}

fn same64(t: &str, v: f64) -> bool {
    match t.parse::<f64>() {
        Ok(x) => x == v || x.is_nan() && v.is_nan(),
        Err(_) => false,
    }
}

fn same32(t: &str, v: f32) -> bool {
    match t.parse::<f32>() {
        Ok(x) => x == v || x.is_nan() && v.is_nan(),
        Err(_) => false,
    }
}

fn reads64(what: &str, s: &str, want: &[f64]) -> CheckResult {
    let n = numbers(s);
    ensure!(n.len() == want.len() && n.iter().zip(want).all(|(t, v)| same64(t, *v)), "{} {:?} prints as {:?}", what, want, s);
    Ok(())
}

fn reads32(what: &str, s: &str, want: &[f32]) -> CheckResult {
    let n = numbers(s);
    ensure!(n.len() == want.len() && n.iter().zip(want).all(|(t, v)| same32(t, *v)), "{} {:?} prints as {:?}", what, want, s);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Printed {
    /// bit patterns
    a: [u64; 3],
    c: [u16; 3],
}

fn check_printed(c: &Printed, o: &mut Obs) -> CheckResult {
    let a = c.a.map(f64::from_bits);
    let b = a.map(|x| x as f32);
    o.nontrivial_if(a[0] != a[1] && a[1] != a[2]);
    o.class_if(a.iter().any(|x| !x.is_finite()), "not finite");
    o.class_if(a.iter().any(|x| x.is_subnormal()), "subnormal");
    reads64("RGBf64", &rgbf64(a[0], a[1], a[2]).to_string(), &a)?;
    reads32("RGBf32", &rgbf32(b[0], b[1], b[2]).to_string(), &b)?;
    reads64("XYZf64", &XYZf64::new(a[0], a[1], a[2]).to_string(), &a)?;
    reads32("XYZf32", &XYZf32::new(b[0], b[1], b[2]).to_string(), &b)?;
    let u = c.c.map(|v| v as u8);
    reads64("RGBu8", &rgbu8(u[0], u[1], u[2]).to_string(), &u.map(f64::from))?;
    reads64("RGBu16", &rgbu16(c.c[0], c.c[1], c.c[2]).to_string(), &c.c.map(f64::from))?;
    let s = Sample::new(a[0], a[1]);
    reads64("Sample", &s.to_string(), &a[..2])?;
    reads64("Sample (debug)", &format!("{:?}", s), &a[..2])?;
    reads64("SpdShape", &SpdShape::<f64>::new(a[0], a[1], a[2]).to_string(), &a)?;
    reads32("SpdShape<f32>", &SpdShape::<f32>::new(b[0], b[1], b[2]).to_string(), &b)?;
    reads64("Interval", &Interval::Uniform(a[2]).to_string(), &a[2..])?;
    let v = Interval::<f64>::Varying.to_string();
    ensure!(!v.is_empty() && numbers(&v).is_empty(), "a varying interval prints as {:?}", v);
    // the debug forms name their fields and show the same numbers
    reads64("RGBf64 (debug)", &format!("{:?}", rgbf64(a[0], a[1], a[2])), &a)?;
    reads64("XYZf64 (debug)", &format!("{:?}", XYZf64::new(a[0], a[1], a[2])), &a)?;
    reads64("XYY (debug)", &format!("{:?}", XYY::<f64>::new(a[0], a[1], a[2])), &a)?;
    let l: Lab<f64> = lab(a[0], a[1], a[2]);
    reads64("Lab (debug)", &format!("{:?}", l), &a)?;
    reads32("RGBAf32 (debug)", &format!("{:?}", rgbaf32(b[0], b[1], b[2], b[0])), &[b[0], b[1], b[2], b[0]])?;
    let m = [a[0], a[1], a[2], a[1], a[2], a[0], a[2], a[0], a[1]];
    reads64("Matrix33 (debug)", &format!("{:?}", M3f64::new(m)), &m)?;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PrintedSpec {
    s: SpecCase,
    fixed: Vec<u32>,
}

fn check_printed_spec(c: &PrintedSpec, o: &mut Obs) -> CheckResult {
    let s = c.s.vspd();
    let mut want = vec![s.start(), s.end()];
    if let Interval::Uniform(i) = s.interval() {
        want.push(i);
    } else {
        o.class("varying");
    }
    for p in of_vspd(&s) {
        want.push(p.0);
        want.push(p.1);
    }
    o.nontrivial_if(s.len() > 2);
    for (what, t) in [("spectrum", s.to_string()), ("spectrum (debug)", format!("{:?}", s))] {
        let n = numbers(&t);
        ensure!(n.len() == want.len(), "{} of {} samples prints {} numbers instead of {}: {}", what, s.len(), n.len(), want.len(), t);
        for (i, (t, v)) in n.iter().zip(&want).enumerate() {
            ensure!(same64(t, *v), "{}: number {} prints as {} instead of {}", what, i, t, v);
        }
    }
    let mut v = [0.0f32; 40];
    for (i, x) in v.iter_mut().enumerate() {
        *x = f32::from_bits(c.fixed[i]);
    }
    let f = SPD::new(v);
    reads32("SPD", &f.to_string(), &v)?;
    reads32("SPD (debug)", &format!("{:?}", f), &v)?;
    Ok(())
}

fn bits64() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => scalar(6.0).prop_map(f64::to_bits),
        2 => any::<u64>(),
        1 => select(vec![0.0f64, -0.0, 1.0, 0.1, 1e21, 1e-7, 1e300, f64::MIN_POSITIVE, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]).prop_map(f64::to_bits),
        1 => (-1_000_000i64..1_000_000).prop_map(|k| (k as f64 / 1e4).to_bits()),
    ]
    .boxed()
}

pub fn c25() -> Property {
    Property {
        id: "C25",
        rule: "values: three doubles of any bit pattern (also rounded to single) and three 16-bit codes, printed as every type; non-trivial when neighbouring components differ. spectra: generated spectra (uniform, varying) and 40 single-precision values; non-trivial when more than two samples",
        assumptions: &["only the numbers and their order are judged, not the punctuation or names around them"],
        subs: vec![
            sub(
                "values",
                150_000,
                20,
                || (proptest::array::uniform3(bits64()), proptest::array::uniform3(prop_oneof![any::<u16>(), 0u16..256])).prop_map(|(a, c)| Printed { a, c }),
                check_printed,
            ),
            sub(
                "spectra",
                15_000,
                20,
                || {
                    (
                        spec_case(80),
                        proptest::collection::vec(prop_oneof![3 => (0.0f32..1.0).prop_map(f32::to_bits), 1 => any::<u32>()], 40..=40),
                    )
                        .prop_map(|(s, fixed)| PrintedSpec { s, fixed })
                },
                check_printed_spec,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C26

/// Admissible decoded interval of encoded values in [lo, hi]; None where the
/// curve is undefined
fn dec_range(k: Curve, lo: f64, hi: f64, eps: f64) -> Option<(f64, f64)> {
    if matches!(k, Curve::Gamma(_)) && lo < 0.0 {
        return None;
    }
    let mut r = (f64::INFINITY, f64::NEG_INFINITY);
    let mut add = |v: Val| {
        r.0 = r.0.min(v.v - v.tol);
        r.1 = r.1.max(v.v + v.tol);
    };
    for x in [lo, hi] {
        let (a, b) = k.dec(x, eps);
        add(a);
        if let Some(b) = b {
            add(b);
        }
    }
    if let Some(t) = k.dec_thr() {
        if lo <= t * (1.0 + 1e-5) && hi >= t * (1.0 - 1e-5) {
            for t in [t * (1.0 - 1e-5), t, t * (1.0 + 1e-5)] {
                add(k.dec_lin(t, eps));
                add(k.dec_pow(t, eps));
            }
        }
    }
    Some(r)
}

type Iv = [(f64, f64); 3];

/// One conversion between spaces on intervals of encoded values
fn hop(p: &Pipe, x: &Iv, eps: f64) -> Option<Iv> {
    let (mut mid, mut err) = ([0.0; 3], [0.0; 3]);
    for i in 0..3 {
        let (lo, hi) = dec_range(p.from, x[i].0, x[i].1, eps)?;
        mid[i] = (lo + hi) / 2.0;
        err[i] = (hi - lo) / 2.0 + 2.0 * f64::EPSILON * mid[i].abs();
    }
    let v = m3_vec(&p.m, mid);
    let scale = m3_vec(&p.mabs, mid.map(f64::abs));
    let prop = m3_vec(&abs3(&p.m), err);
    let mut out = [(0.0, 0.0); 3];
    for i in 0..3 {
        let d = 256.0 * eps * scale[i] + prop[i] * 1.01;
        if matches!(p.to, Curve::Gamma(_)) && v[i] - d < 0.0 {
            return None;
        }
        out[i] = p.to.enc_range(v[i] - d, v[i] + d, eps);
    }
    Some(out)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chain {
    single: bool,
    spaces: Vec<SpaceSel>,
    px: Vec<[f64; 3]>,
    /// convert through integer pixels at the end
    kind: u8,
}

fn check_chain(c: &Chain, o: &mut Obs) -> CheckResult {
    fn go<T: Models>(c: &Chain, o: &mut Obs) -> CheckResult
    where
        RGBu8: From<RGBf<T>>,
        RGBu16: From<RGBf<T>>,
    {
        if !c.spaces.iter().all(|s| s.ok()) {
            return Ok(());
        }
        let held: Vec<_> = match c.spaces.iter().map(|s| hold::<T>(s)).collect::<Option<Vec<_>>>() {
            Some(h) => h,
            None => return Ok(()),
        };
        let refs: Vec<RefSpace> = c.spaces.iter().map(|s| s.reference::<T>()).collect();
        let px: Vec<[f64; 3]> = c
            .px
            .iter()
            .map(|x| {
                let x = rnd3::<T>(*x);
                if matches!(refs[0].curve, Curve::Gamma(_)) {
                    x.map(f64::abs)
                } else {
                    x
                }
            })
            .collect();
        // the whole slice goes through every space and back to the first
        let mut cur: Vec<RGBf<T>> = px.iter().map(|x| rgb_of::<T>(*x)).collect();
        let mut iv: Vec<Option<Iv>> = px.iter().map(|x| Some([(x[0], x[0]), (x[1], x[1]), (x[2], x[2])])).collect();
        let n = held.len();
        let mut path = vec![refs[0].name];
        for i in 0..n {
            let j = (i + 1) % n;
            let (f, t) = (held[i].get(), held[j].get());
            let mut out = vec![RGBf::<T>::from_scalar(T::of(-7.0)); cur.len()];
            let cnt = rgb_to_rgb(f, t, &cur, &mut out);
            ensure!(cnt == cur.len(), "{} pixels converted instead of {}", cnt, cur.len());
            let p = pipe(&refs[i], &refs[j]);
            path.push(refs[j].name);
            for (k, v) in iv.iter_mut().enumerate() {
                *v = v.as_ref().and_then(|v| hop(&p, v, T::EPS));
                if let Some(w) = v {
                    let g = rgb_d(out[k]);
                    for ch in 0..3 {
                        ensure!(g[ch] >= w[ch].0 && g[ch] <= w[ch].1, "pixel {:?} through {:?}, channel {}: {} outside [{}, {}]", px[k], path, ch, g[ch], w[ch].0, w[ch].1);
                    }
                }
            }
            cur = out;
        }
        let exact = refs.iter().all(|r| r.mats.is_none());
        for (k, v) in iv.iter().enumerate() {
            if let Some(w) = v {
                o.nontrivial_if(n > 1);
                o.class_if(exact, "all derived");
                o.class_if(n > 2, "three or more hops");
                // integer pixels of the final colour
                let q = |x: f64, m: f64| (x.clamp(0.0, 1.0) * m).round();
                let (a, b) = (RGBu8::from(cur[k]), RGBu16::from(cur[k]));
                for (ch, (a, b)) in [(a.r, b.r), (a.g, b.g), (a.b, b.b)].iter().enumerate() {
                    let e = 2.0 * T::EPS;
                    ensure!(*a as f64 >= q(w[ch].0 - e, 255.0) && *a as f64 <= q(w[ch].1 + e, 255.0), "8-bit pixel {:?} through {:?}", px[k], path);
                    ensure!(*b as f64 >= q(w[ch].0 - e, 65535.0) && *b as f64 <= q(w[ch].1 + e, 65535.0), "16-bit pixel {:?} through {:?}", px[k], path);
                }
            }
        }
        let _ = c.kind;
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

fn chain() -> BoxedStrategy<Chain> {
    let px = prop_oneof![4 => unit(), 1 => 0.02f64..1.4];
    (
        any::<bool>(),
        proptest::collection::vec(space_sel(), 1..6),
        proptest::collection::vec(triple(px.boxed()), 1..6),
    )
        .prop_map(|(single, spaces, px)| Chain {
            single,
            spaces,
            px,
            kind: 0,
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Refl {
    Patch(usize),
    Made(SpecCase),
    /// constant
    Flat(SpecCase, f64),
}

impl Refl {
    fn samples(&self) -> Vec<(f64, f64)> {
        match self {
            Refl::Patch(i) => of_vspd(&colorchecker::SPECTRAL[colorchecker::NAMES[*i]]),
            Refl::Made(s) => s.samples(),
            Refl::Flat(s, v) => s.samples().into_iter().map(|p| (p.0, *v)).collect(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rendered {
    single: bool,
    s: Refl,
    il: Illum,
    space: SpaceSel,
}

fn check_rendered(c: &Rendered, o: &mut Obs) -> CheckResult {
    fn go<T: Models>(c: &Rendered, o: &mut Obs, narrow: fn(XYZf64) -> XYZ<T>) -> CheckResult
    where
        RGBu8: From<RGBf<T>>,
        RGBu16: From<RGBf<T>>,
    {
        let sp = c.s.samples();
        let how = method(&sp);
        if matches!(how, Method::Either) || !c.space.ok() {
            return Ok(());
        }
        let held = match hold::<T>(&c.space) {
            Some(h) => h,
            None => return Ok(()),
        };
        let space = held.get();
        let rs = c.space.reference::<T>();
        let il = c.il.vspd();
        let ip = of_vspd(&il);
        let one: Vec<(f64, f64)> = sp.iter().map(|p| (p.0, 1.0)).collect();
        // the crate's pipeline
        let obs = &cmf::CIE_1931_2_DEGREE;
        let xyz = VSPD::new(to_samples(&sp)).to_xyz(&il, obs);
        let white = VSPD::new(to_samples(&one)).to_xyz(&il, obs);
        let white_xyy = XYY::<T>::from_xyz(narrow(white));
        let m = xyz_to_rgb_matrix(white_xyy, space);
        let lin = xyz_to_rgb(&m, narrow(xyz));
        let enc = space.encode(lin);
        let (q8, q16) = (RGBu8::from(enc), RGBu16::from(enc));
        // the published steps
        let (wx, wt) = ref_xyz(&one, &ip, &how);
        let (rx, rt) = ref_xyz(&sp, &ip, &how);
        if !m3_vec(&Cat::Cat02.cone(), wx).iter().all(|v| *v > 5.0) {
            return Ok(()); // no well defined adaptation
        }
        let own = xyy_to_xyz(rnd::<T>(rs.white[0]), rnd::<T>(rs.white[1]), 1.0);
        let mm = m3_mul(&rs.xyz_to_rgb(), &Cat::Cat02.matrix(wx, own));
        let scale = noise(&rs.xyz_to_rgb(), &cat_abs(wx, own), &ID3);
        let v = rx.map(|x| x / 100.0);
        let want = m3_vec(&mm, v);
        let size = m3_vec(&scale, v.map(f64::abs));
        let prop = m3_vec(&abs3(&mm), [rt / 100.0; 3]);
        let (g, e) = (rgb_d(lin), rgb_d(enc));
        let q = |x: f64, m: f64| (x.clamp(0.0, 1.0) * m).round();
        for k in 0..3 {
            let d = (256.0 * T::EPS + 40.0 * wt / 100.0) * size[k] + 1.01 * prop[k];
            ensure!(close(g[k], want[k], d), "{:?} under {:?} in {}: linear channel {} is {} instead of {} (tolerance {:e})", c.s, c.il, rs.name, k, g[k], want[k], d);
            if matches!(rs.curve, Curve::Gamma(_)) && want[k] - d < 0.0 {
                continue;
            }
            let (lo, hi) = rs.curve.enc_range(want[k] - d, want[k] + d, T::EPS);
            ensure!(e[k] >= lo && e[k] <= hi, "{:?} under {:?} in {}: encoded channel {} is {}, outside [{}, {}]", c.s, c.il, rs.name, k, e[k], lo, hi);
            let s = 2.0 * T::EPS;
            let (a, b) = ([q8.r, q8.g, q8.b][k] as f64, [q16.r, q16.g, q16.b][k] as f64);
            ensure!(a >= q(lo - s, 255.0) && a <= q(hi + s, 255.0), "{:?} under {:?} in {}: 8-bit channel {} is {}, expected about {}", c.s, c.il, rs.name, k, a, lo * 255.0);
            ensure!(b >= q(lo - s, 65535.0) && b <= q(hi + s, 65535.0), "{:?} under {:?} in {}: 16-bit channel {} is {}, expected about {}", c.s, c.il, rs.name, k, b, lo * 65535.0);
        }
        // a neutral stays neutral whatever the light and the space
        if let Refl::Flat(_, f) = &c.s {
            o.class("neutral");
            if rs.mats.is_none() {
                for k in 0..3 {
                    let sz = m3_vec(&scale, wx.map(|x| x.abs() / 100.0))[k];
                    let d = f.abs() * (256.0 * T::EPS + 40.0 * wt / 100.0 + 1e-9) * sz;
                    ensure!(close(g[k], *f, d), "a neutral of reflectance {} under {:?} becomes {:?} in {}", f, c.il, g, rs.name);
                }
            }
        }
        o.nontrivial_if(sp.windows(2).any(|w| w[0].1 != w[1].1));
        o.class_if(T::SINGLE, "f32");
        Ok(())
    }
    if c.single {
        go::<f32>(c, o, XYZf32::from)
    } else {
        go::<f64>(c, o, |x| x)
    }
}

fn refl() -> BoxedStrategy<Refl> {
    let real = reflectance().prop_map(|mut s| {
        // mostly physical: reflectances between 0 and 1
        let m = s.v.iter().fold(1.0f64, |m, v| m.max(v.abs()));
        for v in s.v.iter_mut() {
            *v = v.abs() / m;
        }
        s
    });
    prop_oneof![
        3 => (0usize..24).prop_map(Refl::Patch),
        4 => real.clone().prop_map(Refl::Made),
        1 => reflectance().prop_map(Refl::Made),
        2 => (real, prop_oneof![Just(1.0), Just(0.18), 0.01f64..1.0]).prop_map(|(s, v)| Refl::Flat(s, v)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Compared {
    a: Refl,
    b: Refl,
    il: Illum,
}

/// Two spectra to Lab relative to their own light, and their difference
fn check_compared(c: &Compared, o: &mut Obs) -> CheckResult {
    let il = c.il.vspd();
    let ip = of_vspd(&il);
    let obs = &cmf::CIE_1931_2_DEGREE;
    let mut labs = Vec::new();
    let mut want = Vec::new();
    let mut tol = 0.0f64;
    for s in [&c.a, &c.b] {
        let sp = s.samples();
        let how = method(&sp);
        if matches!(how, Method::Either) {
            return Ok(());
        }
        let one: Vec<(f64, f64)> = sp.iter().map(|p| (p.0, 1.0)).collect();
        let white = VSPD::new(to_samples(&one)).to_xyz(&il, obs);
        let x = VSPD::new(to_samples(&sp)).to_xyz(&il, obs);
        let l: Lab<f64> = xyz_to_lab(x, white);
        let (wx, wt) = ref_xyz(&one, &ip, &how);
        let (rx, rt) = ref_xyz(&sp, &ip, &how);
        if wx.iter().any(|w| *w < 5.0) {
            return Ok(());
        }
        let r = ref_xyz_to_lab(rx, wx);
        // the steepest part of the curve has slope 7.787
        let t = 500.0 * 2.0 * 7.8 * (0..3).map(|k| rt / wx[k] + wt * rx[k].abs() / (wx[k] * wx[k])).fold(0.0, f64::max) + 1e-9 * (1.0 + r[0].abs() + r[1].abs() + r[2].abs());
        for (k, g) in [l.L, l.a, l.b].iter().enumerate() {
            ensure!(close(*g, r[k], t), "Lab of {:?} under {:?}: component {} is {} instead of {} (tolerance {:e})", s, c.il, k, g, r[k], t);
        }
        if let Refl::Flat(_, f) = s {
            ensure!(close(l.a, 0.0, t) && close(l.b, 0.0, t), "a neutral of reflectance {} under {:?} has Lab ({}, {}, {})", f, c.il, l.L, l.a, l.b);
            o.class("neutral");
        }
        labs.push(l);
        want.push(r);
        tol += t;
    }
    let d = (0..3).map(|k| (want[0][k] - want[1][k]).powi(2)).sum::<f64>().sqrt();
    let g = delta_E_1976(labs[0], labs[1]);
    ensure!(close(g, d, 2.0 * tol), "difference of {:?} and {:?} is {} instead of {}", c.a, c.b, g, d);
    let g = delta_E(labs[0], labs[1]);
    let all: Vec<f64> = ciede2000_all(tuple_lab(&labs[0]), tuple_lab(&labs[1]), 1e-6);
    ensure!(all.iter().any(|w| close(g, *w, 1e-6 * (1.0 + w.abs()))), "CIEDE2000 of {:?} and {:?} is {} instead of {:?}", labs[0], labs[1], g, all);
    o.nontrivial_if(d > 0.1);
    let _ = tuple;
    Ok(())
}

fn tuple_lab(l: &Lab<f64>) -> [f64; 3] {
    [l.L, l.a, l.b]
}

pub fn c26() -> Property {
    Property {
        id: "C26",
        rule: "rendered: reflectance (24 measured patches, generated, constant) x illuminant x space x precision through to the 8- and 16-bit pixel; non-trivial when not constant. chains: 1..5 spaces, back to the first, 1..5 pixels; non-trivial with at least two spaces and a result that is defined at every hop. compared: two reflectances to Lab and their differences; non-trivial when they differ by more than 0.1",
        assumptions: &[
            "interval oracle: rounding errors are propagated through every step; the observer, daylight and patch tables are decided by C23",
            "pure power curves are only claimed for non-negative values",
            "neutral stays neutral exactly in spaces derived from their primaries; published rounded matrices are compared with their published values instead",
        ],
        subs: vec![
            sub(
                "rendered",
                12_000,
                20,
                || (any::<bool>(), refl(), illum(), space_sel()).prop_map(|(single, s, il, space)| Rendered { single, s, il, space }),
                check_rendered,
            ),
            enumerate(
                "patches",
                |_| 24 * 4 * 10 * 2,
                |i| Rendered {
                    single: i % 2 == 1,
                    s: Refl::Patch((i / 2 % 24) as usize),
                    il: match i / 48 % 4 {
                        0 => Illum::D50,
                        1 => Illum::D55,
                        2 => Illum::D60,
                        _ => Illum::D65,
                    },
                    space: SpaceSel::Builtin((i / 192) as usize),
                },
                check_rendered,
            ),
            sub("chains", 60_000, 20, chain, check_chain),
            sub("compared", 8_000, 20, || (refl(), refl(), illum()).prop_map(|(a, b, il)| Compared { a, b, il }), check_compared),
        ],
    }
}
