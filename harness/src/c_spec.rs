//! C12-C16: spectra, interpolation, resampling, integration.
use crate::engine::*;
use crate::ensure;
use crate::fp::close;
use crate::gen::*;
use crate::refspec::{self, grid, steps, Resampler, Spec, Sprague};
use colorspace::interpolation::{ExtrapolatorConstant, InterpolatorLinear, InterpolatorSprague, SpragueCoefficients};
use colorspace::vspd::{lagrange_coefficients_astm_e2022, linspace, Interval, Sample};
use colorspace::{cmf, illuminant, vspd, SpdShape, CMF, VSPD};
use float_cmp::ApproxEq;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

pub fn to_samples(s: &[(f64, f64)]) -> Vec<Sample> {
    s.iter().map(|p| Sample::new(p.0, p.1)).collect()
}

pub fn of_vspd(s: &VSPD) -> Spec {
    s.samples().iter().map(|s| (s.nm, s.v)).collect()
}

pub fn bits(s: &[(f64, f64)]) -> Vec<(u64, u64)> {
    s.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect()
}

/// Recipe of a spectrum
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SpecCase {
    pub start: f64,
    pub interval: f64,
    /// gaps that deviate: (position as a fraction of the gaps, factor)
    pub odd: Vec<(f64, f64)>,
    pub v: Vec<f64>,
}

impl SpecCase {
    pub fn samples(&self) -> Spec {
        let n = self.v.len();
        if self.odd.is_empty() {
            return self.v.iter().enumerate().map(|(i, v)| (self.start + i as f64 * self.interval, *v)).collect();
        }
        let mut gap = vec![self.interval; n - 1];
        for (p, f) in &self.odd {
            let i = ((p * (n - 1) as f64) as usize).min(n - 2);
            gap[i] = self.interval * f;
        }
        let mut nm = self.start;
        let mut r = vec![(nm, self.v[0])];
        for i in 0..n - 1 {
            nm += gap[i];
            r.push((nm, self.v[i + 1]));
        }
        r
    }
    pub fn vspd(&self) -> VSPD {
        VSPD::new(to_samples(&self.samples()))
    }
}

pub fn interval() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => select(vec![1.0, 5.0, 10.0, 2.0, 4.0, 20.0, 0.5, 0.1, 2.5, 3.0, 7.0, 25.0, 10.9375, 1.0 / 3.0, 0.3]),
        2 => (1u32..300).prop_map(|k| k as f64 / 10.0),
        2 => 0.2f64..30.0,
    ]
    .boxed()
}

pub fn start_nm() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => select(vec![360.0, 380.0, 400.0, 350.0, 300.0, 390.0, 500.0, 700.0]),
        3 => (100u32..1000).prop_map(|k| k as f64),
        2 => (1000u32..10000).prop_map(|k| k as f64 / 10.0),
        2 => 0.0f64..1200.0,
    ]
    .boxed()
}

pub fn values(n: BoxedStrategy<usize>) -> BoxedStrategy<Vec<f64>> {
    n.prop_flat_map(|n| {
        prop_oneof![
            5 => proptest::collection::vec(0.0f64..=1.0, n..=n),
            2 => proptest::collection::vec(scalar(4.0), n..=n),
            1 => (-2.0f64..2.0).prop_map(move |c| vec![c; n]),
            1 => (0.0f64..1.0, -0.2f64..0.2).prop_map(move |(a, b)| (0..n).map(|i| a + b * i as f64).collect()),
            1 => (0..n, -3.0f64..3.0).prop_map(move |(k, a)| (0..n).map(|i| if i == k { a } else { 0.0 }).collect()),
            1 => (0.0f64..6.3, 0.01f64..1.5).prop_map(move |(p, w)| (0..n).map(|i| 0.5 + 0.45 * (p + w * i as f64).sin()).collect()),
        ]
    })
    .boxed()
}

pub fn count(max: usize) -> BoxedStrategy<usize> {
    // now and then as long as a spectrometer's output
    let long = if max >= 60 { 200..=1200 } else { 2..=max };
    prop_oneof![60 => 2usize..=9.min(max), 80 => 2usize..=40.min(max), 20 => 2usize..=max, 1 => long].boxed()
}

fn odd() -> BoxedStrategy<Vec<(f64, f64)>> {
    let f = prop_oneof![3 => select(vec![2.0, 0.5, 3.0, 1.5, 0.25]), 3 => 0.3f64..0.95, 3 => 1.05f64..4.0, 1 => select(vec![1.0 + 1e-4, 1.0 - 1e-4, 1.0 + 1e-6])];
    let pos = prop_oneof![4 => 0.0f64..1.0, 1 => Just(0.0), 1 => Just(0.9999999)];
    prop_oneof![
        5 => Just(vec![]),
        3 => proptest::collection::vec((pos.clone(), f.clone()), 1..=1),
        2 => proptest::collection::vec((pos, f), 2..12),
    ]
    .boxed()
}

pub fn spec_case(max: usize) -> BoxedStrategy<SpecCase> {
    (start_nm(), interval(), odd(), values(count(max)))
        .prop_map(|(start, interval, odd, v)| SpecCase { start, interval, odd, v })
        .boxed()
}

pub fn uniform_case(max: usize) -> BoxedStrategy<SpecCase> {
    (start_nm(), interval(), values(count(max)))
        .prop_map(|(start, interval, v)| SpecCase {
            start,
            interval,
            odd: vec![],
            v,
        })
        .boxed()
}

/// A shape relative to a current spectrum
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShapeSel {
    off: f64,
    snap: u8,
    iv: u8,
    ivv: f64,
    n: usize,
    frac: f64,
    end: u8,
}

fn frac() -> BoxedStrategy<f64> {
    prop_oneof![3 => Just(0.0), 1 => 0.05f64..0.95].boxed()
}

fn shape_sel(maxn: usize) -> BoxedStrategy<ShapeSel> {
    (-1.2f64..1.2, 0u8..6, 0u8..8, interval(), prop_oneof![3 => 1usize..=30, 1 => 1usize..=maxn], frac(), 0u8..6)
        .prop_map(|(off, snap, iv, ivv, n, frac, end)| ShapeSel {
            off,
            snap,
            iv,
            ivv,
            n,
            frac,
            end,
        })
        .boxed()
}

#[derive(Clone, Copy, Debug)]
struct Shape {
    start: f64,
    end: f64,
    interval: f64,
}
impl Shape {
    fn it(&self) -> SpdShape<f64> {
        SpdShape::new(self.start, self.end, self.interval)
    }
}

impl ShapeSel {
    fn resolve(&self, cur: &[(f64, f64)], own: Option<f64>) -> Shape {
        let (f, l) = (cur[0].0, cur[cur.len() - 1].0);
        let span = l - f;
        let interval = match self.iv {
            0 | 1 => own.unwrap_or(self.ivv),
            2 => own.map(|x| x / 2.0).unwrap_or(1.0),
            3 => 1.0,
            4 => 5.0,
            5 => 10.0,
            _ => self.ivv,
        };
        let raw = f + self.off * span;
        let start = match self.snap {
            0 => raw,
            1 => raw.round(),
            2 => f,
            3 => cur[((self.off.abs() * cur.len() as f64) as usize).min(cur.len() - 1)].0,
            4 => f - ((self.off * 10.0) as i64) as f64 * interval,
            _ => (raw * 10.0).round() / 10.0,
        };
        let e = start + (self.n as f64 + self.frac) * interval;
        let end = match self.end {
            0 if l > start => l,
            1 if e.round() > start => e.round(),
            2 => (e * 10.0).round() / 10.0,
            _ => e,
        };
        Shape { start, end, interval }
    }
}

// ---------------------------------------------------------------- C12

fn own_interval(s: &VSPD) -> Option<f64> {
    match s.interval() {
        Interval::Uniform(i) => Some(i),
        Interval::Varying => None,
    }
}

/// The shape invariants of a spectrum
fn well_formed(s: &VSPD) -> CheckResult {
    let sm = s.samples();
    let n = sm.len();
    ensure!(s.len() == n, "len() {} but {} samples", s.len(), n);
    ensure!(s.is_empty() == (n == 0), "is_empty() {} with {} samples", s.is_empty(), n);
    if n == 0 {
        return Ok(());
    }
    let it: Vec<Sample> = s.iter().copied().collect();
    let vs: Vec<f64> = s.values().collect();
    let ws: Vec<f64> = s.wavelengths().collect();
    ensure!(it.len() == n && vs.len() == n && ws.len() == n, "views have {} {} {} elements for {} samples", it.len(), vs.len(), ws.len(), n);
    let mut rit: Vec<Sample> = s.iter().rev().copied().collect();
    let mut rvs: Vec<f64> = s.values().rev().collect();
    let mut rws: Vec<f64> = s.wavelengths().rev().collect();
    rit.reverse();
    rvs.reverse();
    rws.reverse();
    for i in 0..n {
        let (a, v) = (sm[i].nm.to_bits(), sm[i].v.to_bits());
        ensure!(it[i].nm.to_bits() == a && it[i].v.to_bits() == v, "iter() differs from samples() at {}", i);
        ensure!(vs[i].to_bits() == v && ws[i].to_bits() == a, "values()/wavelengths() differ from samples() at {}", i);
        ensure!(
            rit[i].nm.to_bits() == a && rit[i].v.to_bits() == v && rvs[i].to_bits() == v && rws[i].to_bits() == a,
            "a reversed view differs from samples() at {}",
            i
        );
    }
    let (f, l) = (s.first(), s.last());
    ensure!(f.nm == sm[0].nm && f.v.to_bits() == sm[0].v.to_bits(), "first() is {:?}, not {:?}", f, sm[0]);
    ensure!(l.nm == sm[n - 1].nm && l.v.to_bits() == sm[n - 1].v.to_bits(), "last() is {:?}, not {:?}", l, sm[n - 1]);
    let sh = s.shape();
    ensure!(
        sh.start == s.start() && sh.end == s.end() && sh.interval == s.interval(),
        "shape() {} differs from start()/end()/interval() {} {} {}",
        sh,
        s.start(),
        s.end(),
        s.interval()
    );
    for w in sm.windows(2) {
        ensure!(w[0].nm < w[1].nm, "wavelengths not increasing: {} then {}", w[0].nm, w[1].nm);
    }
    ensure!(close(s.start(), f.nm, 1e-9), "start() {} but the first wavelength is {}", s.start(), f.nm);
    let over = s.end() - l.nm;
    ensure!(over >= -1e-9, "end() {} is before the last wavelength {}", s.end(), l.nm);
    if n < 2 {
        // a single sample keeps the spacing of the spectrum it was cut from
        let most = own_interval(s).map_or(1e-9, |i| i - 1e-12 * (1.0 + i));
        ensure!(over <= most, "end() {} of the single sample at {} is too far", s.end(), l.nm);
        return Ok(());
    }
    let gaps: Vec<f64> = sm.windows(2).map(|w| w[1].nm - w[0].nm).collect();
    let (lo, hi) = gaps.iter().fold((f64::INFINITY, 0.0f64), |a, g| (a.0.min(*g), a.1.max(*g)));
    match s.interval() {
        Interval::Uniform(i) => {
            for (k, g) in gaps.iter().enumerate() {
                ensure!(close(*g, i, 1e-9), "interval() is uniform {} but gap {} (from {}) is {}", i, k, sm[k].nm, g);
            }
            ensure!(over < i - 1e-12 * (1.0 + i), "end() {} is a whole interval {} past the last wavelength {}", s.end(), i, l.nm);
        }
        Interval::Varying => {
            ensure!(hi - lo > 5e-12, "interval() is varying but all gaps are {}..{}", lo, hi);
            ensure!(over <= 1e-9, "end() {} of a varying spectrum is past the last wavelength {}", s.end(), l.nm);
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Init {
    New(SpecCase),
    FromPairs(SpecCase),
    FromSamples(SpecCase),
    Macro(SpecCase),
    Constant { start: f64, interval: f64, n: usize, frac: f64, v: f64 },
    FromValues { start: f64, interval: f64, frac: f64, v: Vec<f64> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Align(ShapeSel),
    AlignOwn,
    Interpolate(ShapeSel),
    Extrapolate(ShapeSel),
    ExtrapolateVaryingShape(f64, f64),
    Trim(ShapeSel),
    TrimBetween(f64, f64),
    Mul(f64, bool),
    Div(f64, bool),
    Collect(bool),
    MapValues(f64),
    Thin(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    init: Init,
    ops: Vec<Op>,
}

fn factor() -> BoxedStrategy<f64> {
    prop_oneof![3 => 0.1f64..10.0, 1 => select(vec![1.0, 2.0, 0.5, -1.0, 100.0, 0.01]), 1 => (sign(), logu(-3.0, 3.0)).prop_map(|(s, x)| s * x)].boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        3 => shape_sel(120).prop_map(Op::Align),
        1 => Just(Op::AlignOwn),
        3 => shape_sel(120).prop_map(Op::Interpolate),
        3 => shape_sel(120).prop_map(Op::Extrapolate),
        1 => (0.0f64..1.0, 0.0f64..1.0).prop_map(|(a, b)| Op::ExtrapolateVaryingShape(a, b)),
        2 => shape_sel(120).prop_map(Op::Trim),
        3 => (0.0f64..1.0, 0.0f64..1.0).prop_map(|(a, b)| Op::TrimBetween(a, b)),
        1 => (factor(), any::<bool>()).prop_map(|(a, b)| Op::Mul(a, b)),
        1 => (factor(), any::<bool>()).prop_map(|(a, b)| Op::Div(a, b)),
        1 => any::<bool>().prop_map(Op::Collect),
        1 => (0.1f64..4.0).prop_map(Op::MapValues),
        1 => (0usize..100).prop_map(Op::Thin),
    ]
    .boxed()
}

fn init() -> BoxedStrategy<Init> {
    prop_oneof![
        5 => spec_case(120).prop_map(Init::New),
        1 => spec_case(60).prop_map(Init::FromPairs),
        1 => spec_case(60).prop_map(Init::FromSamples),
        1 => spec_case(4).prop_map(Init::Macro),
        1 => (start_nm(), interval(), 1usize..400, frac(), scalar(3.0))
            .prop_map(|(start, interval, n, frac, v)| Init::Constant { start, interval, n, frac, v }),
        2 => (start_nm(), interval(), frac(), values(count(400))).prop_map(|(start, interval, frac, v)| Init::FromValues { start, interval, frac, v }),
    ]
    .boxed()
}

fn history() -> BoxedStrategy<History> {
    (init(), proptest::collection::vec(op(), 0..8)).prop_map(|(init, ops)| History { init, ops }).boxed()
}

/// got has exactly the wavelengths and values of want, within tolerance
fn same(what: &str, got: &VSPD, want: &[(f64, f64)], nm_tol: f64, tol: &dyn Fn(f64) -> f64) -> CheckResult {
    let g = of_vspd(got);
    ensure!(g.len() == want.len(), "{}: {} samples instead of {}; got {} .. {}, expected {:?} .. {:?}", what, g.len(), want.len(), got.first(), got.last(), want.first(), want.last());
    for (i, (a, b)) in g.iter().zip(want).enumerate() {
        ensure!(close(a.0, b.0, nm_tol), "{}: sample {} is at {} nm instead of {}", what, i, a.0, b.0);
        ensure!(close(a.1, b.1, tol(b.0)), "{}: value at {} nm is {} instead of {}", what, b.0, a.1, b.1);
    }
    Ok(())
}

fn exact(_: f64) -> f64 {
    0.0
}

fn check_history(h: &History, o: &mut Obs) -> CheckResult {
    let (mut cur, want): (VSPD, Spec) = match &h.init {
        Init::New(c) => (c.vspd(), c.samples()),
        Init::FromPairs(c) => (c.samples().into_iter().collect(), c.samples()),
        Init::FromSamples(c) => (to_samples(&c.samples()).into_iter().collect(), c.samples()),
        Init::Macro(c) => {
            let s = c.samples();
            let m = match s.len() {
                2 => vspd!(s[0].0 => s[0].1, s[1].0 => s[1].1),
                3 => vspd!(s[0].0 => s[0].1, s[1].0 => s[1].1, s[2].0 => s[2].1,),
                _ => vspd!(s[0].0 => s[0].1, s[1].0 => s[1].1, s[2].0 => s[2].1, s[3].0 => s[3].1,),
            };
            (m, s[..s.len().min(4)].to_vec())
        }
        Init::Constant { start, interval, n, frac, v } => {
            let sh = SpdShape::new(*start, start + (*n as f64 + frac) * interval, *interval);
            (VSPD::constant(sh, *v), grid(*start, *interval, *n).into_iter().map(|w| (w, *v)).collect())
        }
        Init::FromValues { start, interval, frac, v } => {
            let n = v.len() - 1;
            let sh = SpdShape::new(*start, start + (n as f64 + frac) * interval, *interval);
            (VSPD::from_values(sh, v), grid(*start, *interval, n).into_iter().zip(v.iter().copied()).collect())
        }
    };
    same("construction", &cur, &want, 1e-9, &exact)?;
    well_formed(&cur).map_err(|e| format!("after construction: {}", e))?;
    check_equality(&cur)?;
    let mut done = 0;
    for (k, op) in h.ops.iter().enumerate() {
        let prev = of_vspd(&cur);
        let prev_shape = cur.shape();
        let own = own_interval(&cur);
        if prev.len() > 1500 {
            break;
        }
        let what = format!("op {} {:?}", k, op);
        let next = match step(&cur, &prev, own, op, &what, o)? {
            Some(n) => n,
            None => continue,
        };
        // the input is unchanged
        ensure!(bits(&of_vspd(&cur)) == bits(&prev) && cur.shape() == prev_shape, "{} changed its input", what);
        well_formed(&next).map_err(|e| format!("after {}: {}", what, e))?;
        done += 1;
        if next.len() < 2 {
            o.class("ends with one sample");
            break;
        }
        cur = next;
    }
    check_equality(&cur)?;
    o.nontrivial_if(done >= 2 || (done >= 1 && want.len() > 2));
    o.class_if(own_interval(&cur).is_none(), "varying at the end");
    o.class_if(done >= 4, "4+ operations");
    Ok(())
}

fn check_equality(s: &VSPD) -> CheckResult {
    let m = (0.0, 0i64);
    ensure!(*s == s.clone(), "a clone compares unequal");
    ensure!(s.approx_eq(&s.clone(), m), "a clone compares approximately unequal");
    let base = of_vspd(s);
    let n = base.len();
    for k in [0, n / 2, n - 1] {
        let mut b = to_samples(&base);
        b[k].v += 1.0 + b[k].v.abs();
        let t = VSPD::new(b);
        ensure!(*s != t, "spectra differing in value {} compare equal", k);
        ensure!(!s.approx_eq(&t, m), "spectra differing in value {} compare approximately equal", k);
    }
    let mut b = to_samples(&base);
    b[n - 1].nm += 0.25;
    let t = VSPD::new(b);
    ensure!(*s != t && !s.approx_eq(&t, m), "spectra differing in the last wavelength compare equal");
    if n > 3 {
        // between its neighbours, so that start, end and a varying interval stay
        let k = n / 2;
        let mut b = to_samples(&base);
        b[k].nm += (b[k + 1].nm - b[k].nm) * 0.5;
        if b[k].nm != base[k].0 && b[k].nm != base[k + 1].0 {
            let t = VSPD::new(b);
            ensure!(*s != t && t != *s, "spectra differing in wavelength {} compare equal", k);
            ensure!(!s.approx_eq(&t, m), "spectra differing in wavelength {} compare approximately equal", k);
        }
    }
    let mut b = to_samples(&base);
    b.push(Sample::new(b[n - 1].nm + 1.0, 0.5));
    let t = VSPD::new(b);
    ensure!(*s != t && !s.approx_eq(&t, m) && t != *s && !t.approx_eq(s, m), "a spectrum equals its extension by a sample");
    Ok(())
}

fn step(cur: &VSPD, prev: &Spec, own: Option<f64>, op: &Op, what: &str, o: &mut Obs) -> Result<Option<VSPD>, String> {
    let nm_tol = 1e-9;
    let (f, l) = (prev[0].0, prev[prev.len() - 1].0);
    Ok(Some(match op {
        Op::Align(_) | Op::AlignOwn => {
            let sh = match op {
                Op::Align(s) => s.resolve(prev, own),
                _ => match own {
                    Some(i) => Shape {
                        start: cur.shape().start,
                        end: cur.shape().end,
                        interval: i,
                    },
                    None => return Ok(None),
                },
            };
            let n = match steps(sh.start, sh.end, sh.interval) {
                Some(n) if n <= 1500 => n,
                _ => return Ok(None),
            };
            let got = cur.align(sh.it());
            let r = Resampler::new(prev);
            let want: Spec = grid(sh.start, sh.interval, n).into_iter().map(|w| (w, r.at(w))).collect();
            same(what, &got, &want, nm_tol, &|w| r.tol(w))?;
            if got.len() > 1 {
                ensure!(matches!(got.interval(), Interval::Uniform(i) if close(i, sh.interval, 1e-9)), "{}: interval {} instead of {}", what, got.interval(), sh.interval);
            }
            o.class("align");
            got
        }
        Op::Interpolate(s) => {
            let sh = s.resolve(prev, own);
            let (a, b) = (sh.start.max(f), sh.end.min(l));
            if b < a {
                return Ok(None);
            }
            let n = match steps(a, b, sh.interval) {
                Some(n) if n <= 1500 => n,
                _ => return Ok(None),
            };
            let got = cur.interpolate(sh.it());
            let r = Resampler::new(prev);
            let want: Spec = grid(a, sh.interval, n).into_iter().map(|w| (w, r.at(w))).collect();
            same(what, &got, &want, nm_tol, &|w| r.tol(w))?;
            if got.len() > 1 {
                ensure!(matches!(got.interval(), Interval::Uniform(i) if close(i, sh.interval, 1e-9)), "{}: interval {} instead of {}", what, got.interval(), sh.interval);
            }
            o.class("interpolate");
            got
        }
        Op::Extrapolate(s) => {
            let sh = s.resolve(prev, own);
            let i = own.unwrap_or(sh.interval);
            // keep the size down
            if (f - sh.start) / i > 1000.0 || (sh.end - l) / i > 1000.0 {
                return Ok(None);
            }
            let want = match refspec::extrapolate(prev, sh.start, sh.end, i) {
                Some(w) => w,
                None => return Ok(None),
            };
            let got = cur.extrapolate(sh.it());
            same(what, &got, &want, nm_tol, &exact)?;
            o.class("extrapolate");
            got
        }
        Op::ExtrapolateVaryingShape(a, b) => {
            let i = match own {
                Some(i) => i,
                None => {
                    // documented: no interval available
                    let sh = SpdShape {
                        start: f - a * 50.0,
                        end: l + b * 50.0,
                        interval: Interval::Varying,
                    };
                    ensure!(panics(|| cur.extrapolate(sh)), "{}: extrapolating a varying spectrum to a varying shape did not panic", what);
                    return Ok(None);
                }
            };
            let (na, nb) = ((a * 20.0) as usize, (b * 20.0) as usize);
            let sh = SpdShape {
                start: f - (na as f64 + 0.5) * i,
                end: l + (nb as f64 + 0.5) * i,
                interval: Interval::Varying,
            };
            let got = cur.extrapolate(sh);
            let want = refspec::extrapolate(prev, sh.start, sh.end, i).unwrap();
            same(what, &got, &want, nm_tol, &exact)?;
            got
        }
        Op::Trim(_) | Op::TrimBetween(..) => {
            let (a, b) = match op {
                Op::Trim(s) => {
                    let sh = s.resolve(prev, own);
                    (sh.start, sh.end)
                }
                Op::TrimBetween(p, q) => {
                    let n = prev.len() as f64;
                    let (i, j) = ((p * n) as usize, (q * n) as usize);
                    (prev[i.min(j)].0, prev[i.max(j)].0)
                }
                _ => unreachable!(),
            };
            let want = refspec::trim(prev, a, b);
            if want.is_empty() {
                return Ok(None);
            }
            let got = cur.trim(SpdShape::new(a, b, 1.0));
            same(what, &got, &want, 0.0, &exact)?;
            o.class("trim");
            got
        }
        Op::Mul(k, by_ref) => {
            let got = if *by_ref { cur * *k } else { cur.clone() * *k };
            let want: Spec = prev.iter().map(|p| (p.0, p.1 * k)).collect();
            let t = 4.0 * f64::EPSILON * refspec::vmax(&want);
            same(what, &got, &want, 0.0, &|_| t)?;
            got
        }
        Op::Div(k, by_ref) => {
            let got = if *by_ref { cur / *k } else { cur.clone() / *k };
            let want: Spec = prev.iter().map(|p| (p.0, p.1 / k)).collect();
            let t = 4.0 * f64::EPSILON * refspec::vmax(&want);
            same(what, &got, &want, 0.0, &|_| t)?;
            got
        }
        Op::Collect(pairs) => {
            let got: VSPD = if *pairs {
                cur.wavelengths().zip(cur.values()).collect()
            } else {
                cur.iter().copied().collect()
            };
            same(what, &got, prev, 0.0, &exact)?;
            got
        }
        Op::MapValues(k) => {
            let got: VSPD = cur.iter().map(|s| Sample::new(s.nm, s.v.abs().powf(*k))).collect();
            let want: Spec = prev.iter().map(|p| (p.0, p.1.abs().powf(*k))).collect();
            same(what, &got, &want, 0.0, &exact)?;
            got
        }
        Op::Thin(k) => {
            // drop one sample: usually leaves one odd gap
            if prev.len() < 3 {
                return Ok(None);
            }
            let k = k % prev.len();
            let want: Spec = prev.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, p)| *p).collect();
            let got: VSPD = want.iter().copied().collect();
            same(what, &got, &want, 0.0, &exact)?;
            got
        }
    }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadBuild {
    start: f64,
    interval: f64,
    n: usize,
    frac: f64,
    off: i64,
}

fn check_bad_build(c: &BadBuild, o: &mut Obs) -> CheckResult {
    let sh = SpdShape::new(c.start, c.start + (c.n as f64 + c.frac) * c.interval, c.interval);
    let len = (c.n as i64 + 1 + c.off).max(0) as usize;
    let vals: Vec<f64> = (0..len).map(|i| i as f64).collect();
    let r = guarded(|| VSPD::from_values(sh, &vals));
    if c.off == 0 && len >= 2 {
        let s = r.map_err(|e| format!("from_values rejected {} values for a shape of {} wavelengths: {}", len, c.n + 1, e))?;
        same("from_values", &s, &grid(c.start, c.interval, c.n).into_iter().zip(vals.iter().copied()).collect::<Vec<_>>(), 1e-9, &exact)?;
    } else {
        ensure!(r.is_err(), "from_values accepted {} values for a shape of {} wavelengths", len, c.n + 1);
        o.class("mismatch rejected");
    }
    let vary = SpdShape {
        interval: Interval::Varying,
        ..sh
    };
    ensure!(panics(|| VSPD::from_values(vary, &vals)), "from_values accepted a varying shape");
    for k in 0..2usize {
        let s: Vec<Sample> = (0..k).map(|i| Sample::new(i as f64, 0.0)).collect();
        ensure!(panics(|| VSPD::new(s)), "a spectrum of {} samples was accepted", k);
    }
    ensure!(panics(|| VSPD::constant(SpdShape::new(c.start, c.start + 0.5 * c.interval, c.interval), 1.0)), "constant() accepted a shape with one wavelength");
    o.nontrivial_if(c.n > 1);
    Ok(())
}

/// A spectrum measured anyhow: any increasing wavelengths, however close
/// together, and any finite values
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Collected {
    start: f64,
    gaps: Vec<f64>,
    v: Vec<f64>,
    k: f64,
    cut: (f64, f64),
}

fn collected() -> BoxedStrategy<Collected> {
    let gap = prop_oneof![3 => logu(-10.0, -3.0), 3 => logu(-3.0, 2.0), 1 => select(vec![1e-6, 1e-7, 1e-9, 1e-5, 5.0, 1.0])];
    let k = prop_oneof![2 => select(vec![0.0, -0.0, 1.0, -1.0]), 2 => (sign(), logu(-40.0, 40.0)).prop_map(|(s, x)| s * x), 1 => 0.1f64..10.0];
    let v = prop_oneof![4 => scalar(4.0), 1 => (sign(), logu(-300.0, 300.0)).prop_map(|(s, x)| s * x), 1 => Just(0.0)];
    (start_nm(), 2usize..24)
        .prop_flat_map(move |(start, n)| {
            let even = prop_oneof![3 => Just(false), 1 => Just(true)];
            (Just(start), even, proptest::collection::vec(gap.clone(), n - 1), proptest::collection::vec(v.clone(), n), k.clone(), (0.0f64..1.0, 0.0f64..1.0))
        })
        .prop_map(|(start, even, mut gaps, v, k, cut)| {
            if even {
                let g = gaps[0];
                gaps.iter_mut().for_each(|x| *x = g);
            }
            Collected { start, gaps, v, k, cut }
        })
        .boxed()
}

fn check_collected(c: &Collected, o: &mut Obs) -> CheckResult {
    let mut want = vec![(c.start, c.v[0])];
    for (g, v) in c.gaps.iter().zip(&c.v[1..]) {
        let nm = want[want.len() - 1].0 + g;
        want.push((nm, *v));
    }
    let ways: [(&str, VSPD); 3] = [
        ("new", VSPD::new(to_samples(&want))),
        ("collected from pairs", want.iter().copied().collect()),
        ("collected from samples", to_samples(&want).into_iter().collect()),
    ];
    for (what, s) in &ways {
        ensure!(bits(&of_vspd(s)) == bits(&want), "{}: {:?} instead of {:?}", what, of_vspd(s), want);
        well_formed(s).map_err(|e| format!("{}: {}", what, e))?;
        ensure!(*s == ways[0].1 && ways[0].1 == *s && *s == s.clone(), "{}: equal samples compare unequal", what);
    }
    let s = &ways[0].1;
    // any one sample differing is seen, by however little
    let k = ((c.cut.0 * want.len() as f64) as usize).min(want.len() - 1);
    let mut other = want.clone();
    other[k].1 = if other[k].1 == 0.0 { 1e-300 } else { f64::from_bits(other[k].1.to_bits() ^ 1) };
    let t = VSPD::new(to_samples(&other));
    ensure!(*s != t && t != *s, "spectra whose value {} is {:e} and {:e} compare equal", k, want[k].1, other[k].1);
    // and so is any one wavelength
    let mut other = want.clone();
    other[k].0 = f64::from_bits(other[k].0.to_bits() + 1);
    let t = VSPD::new(to_samples(&other));
    ensure!(*s != t && t != *s, "spectra whose wavelength {} is {} and {} compare equal", k, want[k].0, other[k].0);
    ensure!(!s.approx_eq(&t, (0.0, 0i64)), "spectra whose wavelength {} is {} and {} compare approximately equal", k, want[k].0, other[k].0);
    ensure!(s.approx_eq(&t, (0.0, 1i64)) && s.approx_eq(&t, (1e-6, 0i64)), "spectra whose wavelength {} is {} and {} compare unequal within a margin", k, want[k].0, other[k].0);
    // readings that are no finite numbers are kept like any other
    for odd in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0] {
        let mut wild = want.clone();
        wild[k].1 = odd;
        let ways: [VSPD; 3] = [VSPD::new(to_samples(&wild)), wild.iter().copied().collect(), to_samples(&wild).into_iter().collect()];
        for t in &ways {
            let same = t.len() == wild.len() && of_vspd(t).iter().zip(&wild).all(|(g, w)| g.0.to_bits() == w.0.to_bits() && (g.1.to_bits() == w.1.to_bits() || (g.1.is_nan() && w.1.is_nan())));
            ensure!(same, "collecting {:?} gives {:?}", wild, of_vspd(t));
            ensure!(odd.is_nan() || (*t == ways[0] && ways[0] == *t), "spectra with the same samples {:?} compare unequal", wild);
            ensure!(odd == 0.0 || (*t != *s && *s != *t), "spectra whose value {} is {} and {} compare equal", k, want[k].1, odd);
        }
    }
    let scaled: [(&str, VSPD, bool); 4] = [("* by value", s.clone() * c.k, true), ("* by reference", s * c.k, true), ("/ by value", s.clone() / c.k, false), ("/ by reference", s / c.k, false)];
    for (what, got, mul) in &scaled {
        ensure!(got.len() == want.len(), "{} {}: {} samples of {}", what, c.k, got.len(), want.len());
        for (g, p) in got.samples().iter().zip(&want) {
            let w = if *mul { p.1 * c.k } else { p.1 / c.k };
            let ok = if w.is_finite() { close(g.v, w, 4.0 * f64::EPSILON * w.abs() + 1e-320) || (!g.v.is_finite() && w.abs() > 1e308) } else { g.v == w || (w.is_nan() && g.v.is_nan()) };
            // a reciprocal that overflows or underflows on the way
            let ok = ok || (!*mul && !(1.0 / c.k).is_normal() && c.k != 0.0);
            ensure!(g.nm.to_bits() == p.0.to_bits() && ok, "({} nm, {:e}) {} {:e} is ({} nm, {:e}), expected {:e}", p.0, p.1, what, c.k, g.nm, g.v, w);
        }
        well_formed(got).map_err(|e| format!("after {} {}: {}", what, c.k, e))?;
        ensure!(got.shape() == s.shape(), "{} {} changed the shape {} to {}", what, c.k, s.shape(), got.shape());
    }
    let n = want.len() as f64;
    let (i, j) = ((c.cut.0 * n) as usize, (c.cut.1 * n) as usize);
    let (a, b) = (i.min(j), i.max(j));
    let got = s.trim(SpdShape::new(want[a].0, want[b].0, 1.0));
    ensure!(bits(&of_vspd(&got)) == bits(&want[a..=b]), "trimmed to samples {}..={}: {:?} instead of {:?}", a, b, of_vspd(&got), &want[a..=b]);
    well_formed(&got).map_err(|e| format!("after trimming to samples {}..={}: {}", a, b, e))?;
    ensure!(bits(&of_vspd(s)) == bits(&want), "an operation changed its input");
    o.nontrivial();
    o.class_if(c.k == 0.0, "scaled by zero");
    o.class_if(c.gaps.iter().any(|g| *g < 1e-6), "gaps below 1e-6 nm");
    Ok(())
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        rule: "a history counts when at least one operation after construction was applied and compared (two for spectra of two samples); every history is a distinct sequence of generated operations",
        assumptions: &["wavelengths up to a few thousand nm, spacing 0.1 to 120 nm; operations whose step count is ambiguous to rounding (beyond the rounding of the ends but within 1e-6 of a step) are skipped", "values compared to 1e-12 relative to the largest (padded) value plus the rounding of the wavelength"],
        subs: vec![
            sub("histories", 100_000, 30, history, check_history),
            sub("collected", 60_000, 30, collected, check_collected),
            sub(
                "construction_limits",
                3_000,
                10,
                || {
                    (start_nm(), interval(), 1usize..100, frac(), prop_oneof![2 => Just(0i64), 2 => -3i64..=3]).prop_map(|(start, interval, n, frac, off)| BadBuild {
                        start,
                        interval,
                        n,
                        frac,
                        off,
                    })
                },
                check_bad_build,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Interp {
    s: SpecCase,
    v2: Vec<f64>,
    k: [f64; 2],
    q: Vec<(f64, f64)>,
    out: [f64; 2],
}

fn query() -> BoxedStrategy<(f64, f64)> {
    // (which gap, where in it)
    let t = prop_oneof![
        4 => 0.0f64..=1.0,
        2 => Just(0.0),
        1 => Just(1.0),
        1 => Just(0.5),
        1 => logu(-15.0, -2.0),
        1 => logu(-15.0, -2.0).prop_map(|x| 1.0 - x),
    ];
    let g = prop_oneof![4 => 0.0f64..1.0, 1 => Just(0.0), 1 => Just(0.9999999)];
    (g, t).boxed()
}

fn interp_case() -> BoxedStrategy<Interp> {
    spec_case(60)
        .prop_flat_map(|s| {
            let n = s.v.len();
            (
                Just(s),
                proptest::collection::vec(-1.0f64..1.0, n..=n),
                proptest::array::uniform2(-2.0f64..2.0),
                proptest::collection::vec(query(), 1..12),
                proptest::array::uniform2(prop_oneof![12 => 0.0f64..500.0, 4 => logu(-9.0, 0.0), 2 => logu(2.0, 9.0), 1 => logu(9.0, 300.0), 1 => Just(f64::MAX)]),
            )
        })
        .prop_map(|(s, v2, k, q, out)| Interp { s, v2, k, q, out })
        .boxed()
}

fn place(s: &[(f64, f64)], q: (f64, f64)) -> f64 {
    let n = s.len();
    let i = ((q.0 * (n - 1) as f64) as usize).min(n - 2);
    if q.1 == 1.0 {
        return s[i + 1].0;
    }
    (s[i].0 + q.1 * (s[i + 1].0 - s[i].0)).min(s[i + 1].0)
}

fn check_sprague(c: &Interp, o: &mut Obs) -> CheckResult {
    let spec = c.s.samples();
    let spd = c.s.vspd();
    let n = spec.len();
    let r = Sprague::new(&spec);
    let it = InterpolatorSprague::<f64>::new(&spd);
    for q in &c.q {
        let nm = place(&spec, *q);
        let (g, w) = (it.evaluate(nm), r.at(nm));
        ensure!(close(g, w, r.tol(nm)), "Sprague at {} nm is {} instead of {}", nm, g, w);
    }
    // every sample
    let vm = refspec::vmax(&spec).max(r.max * 1e-2);
    for p in &spec {
        let g = it.evaluate(p.0);
        ensure!(close(g, p.1, 2e-13 * r.max.max(vm)), "Sprague at the sample {} nm is {} instead of {}", p.0, g, p.1);
    }
    // linear in the values
    let (a, b) = (c.k[0], c.k[1]);
    let s2: Spec = spec.iter().zip(&c.v2).map(|(p, v)| (p.0, *v)).collect();
    let s3: Spec = spec.iter().zip(&c.v2).map(|(p, v)| (p.0, a * p.1 + b * v)).collect();
    let (v2, v3) = (VSPD::new(to_samples(&s2)), VSPD::new(to_samples(&s3)));
    let (i2, i3) = (InterpolatorSprague::<f64>::new(&v2), InterpolatorSprague::<f64>::new(&v3));
    let (r2, r3) = (Sprague::new(&s2), Sprague::new(&s3));
    for q in &c.q {
        let nm = place(&spec, *q);
        let t = a.abs() * r.tol(nm) + b.abs() * r2.tol(nm) + r3.tol(nm);
        let (g, w) = (i3.evaluate(nm), a * it.evaluate(nm) + b * i2.evaluate(nm));
        ensure!(close(g, w, t), "Sprague is not linear at {} nm: {} instead of {}", nm, g, w);
    }
    o.nontrivial_if(n > 2 && c.q.iter().any(|q| q.1 > 0.0 && q.1 < 1.0));
    o.class_if(n < 6, "fewer than 6 samples");
    o.class_if(!c.s.odd.is_empty(), "varying");
    Ok(())
}

fn check_lines(c: &Interp, o: &mut Obs) -> CheckResult {
    let mut s = c.s.clone();
    s.odd.clear();
    let base = s.samples();
    for (a, b) in [(c.k[0], 0.0), (c.k[0], c.k[1]), (0.0, c.k[1])] {
        let line: Spec = base.iter().map(|p| (p.0, a + b * (p.0 - base[0].0))).collect();
        let spd = VSPD::new(to_samples(&line));
        let it = InterpolatorSprague::<f64>::new(&spd);
        let r = Sprague::new(&line);
        for q in &c.q {
            let nm = place(&line, *q);
            let w = a + b * (nm - base[0].0);
            let g = it.evaluate(nm);
            ensure!(close(g, w, 10.0 * r.tol(nm)), "Sprague of the line {}+{}*x at {} nm is {} instead of {}", a, b, nm, g, w);
        }
    }
    o.nontrivial_if(c.k[1] != 0.0 && base.len() > 2);
    o.class_if(base.len() < 6, "fewer than 6 samples");
    Ok(())
}

fn check_linear(c: &Interp, o: &mut Obs) -> CheckResult {
    let spec = c.s.samples();
    let spd = c.s.vspd();
    let it = InterpolatorLinear::new(&spd);
    let m = refspec::vmax(&spec);
    let gap = spec.windows(2).map(|w| w[1].0 - w[0].0).fold(f64::INFINITY, f64::min);
    let tol = |nm: f64| m * (1e-14 + 8.0 * f64::EPSILON * nm.abs() / gap);
    for q in &c.q {
        let nm = place(&spec, *q);
        let (g, w) = (it.evaluate(nm), refspec::linear_at(&spec, nm));
        ensure!(close(g, w, tol(nm)), "linear interpolation at {} nm is {} instead of {}", nm, g, w);
    }
    for p in &spec {
        let g = it.evaluate(p.0);
        ensure!(close(g, p.1, 1e-15 * m), "linear interpolation at the sample {} nm is {} instead of {}", p.0, g, p.1);
    }
    let (f, l) = (spec[0], spec[spec.len() - 1]);
    let ex = ExtrapolatorConstant::new(&spd);
    for d in c.out {
        let (a, b) = (f.0 - d, l.0 + d);
        ensure!(it.evaluate(a).to_bits() == f.1.to_bits(), "linear interpolation {} nm before the start is {} instead of {}", d, it.evaluate(a), f.1);
        ensure!(it.evaluate(b).to_bits() == l.1.to_bits(), "linear interpolation {} nm after the end is {} instead of {}", d, it.evaluate(b), l.1);
        if a < f.0 {
            ensure!(ex.evaluate(a).to_bits() == f.1.to_bits(), "constant extrapolation at {} is {} instead of {}", a, ex.evaluate(a), f.1);
        }
        if b > l.0 {
            ensure!(ex.evaluate(b).to_bits() == l.1.to_bits(), "constant extrapolation at {} is {} instead of {}", b, ex.evaluate(b), l.1);
        }
    }
    o.nontrivial_if(spec.len() > 2 && f.1 != l.1);
    o.class_if(!c.s.odd.is_empty(), "varying");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Coeff {
    y: Vec<f64>,
    i: f64,
    t: f64,
}

fn check_coeff(c: &Coeff, o: &mut Obs) -> CheckResult {
    let n = c.y.len();
    let i = 2 + ((c.i * (n - 5) as f64) as usize).min(n - 6);
    let y32: Vec<f32> = c.y.iter().map(|v| *v as f32).collect();
    let y64: Vec<f64> = y32.iter().map(|v| *v as f64).collect();
    let w = refspec::sprague_gap(&y64, i, c.t);
    let m = y64.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    let a64 = <f64 as SpragueCoefficients>::coeff_a(&y64, i);
    let a32 = <f32 as SpragueCoefficients>::coeff_a(&y32, i);
    let p = |a: &dyn Fn(usize) -> f64| (0..6).rev().fold(0.0, |s, k| s * c.t + a(k));
    let g64 = p(&|k| a64[k]);
    let g32 = p(&|k| a32[k] as f64);
    ensure!(close(g64, w, 1e-13 * m), "double precision Sprague coefficients give {} instead of {}", g64, w);
    ensure!(close(g32, w, 6e-6 * m), "single precision Sprague coefficients give {} instead of {}", g32, w);
    // boundary rows through the padded reference
    let six: Vec<f64> = y64[..6].to_vec();
    let pad = refspec::padded(&six);
    let rows64 = [f64::coeff_c0(), f64::coeff_c1(), f64::coeff_c2(), f64::coeff_c3()];
    let rows32 = [f32::coeff_c0(), f32::coeff_c1(), f32::coeff_c2(), f32::coeff_c3()];
    for (r, k) in [(0, 0usize), (1, 1), (2, 8), (3, 9)] {
        let dot = |f: &dyn Fn(usize) -> f64| (0..6).map(|j| f(j) * six[j]).sum::<f64>() / 209.0;
        let (a, b) = (dot(&|j| rows64[r][j]), dot(&|j| rows32[r][j] as f64));
        ensure!(close(a, pad[k], 1e-12 * m) && close(b, pad[k], 1e-12 * m), "boundary coefficients {} give {} / {} instead of {}", r, a, b, pad[k]);
    }
    o.nontrivial_if(m > 0.0 && c.t > 0.0);
    Ok(())
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        rule: "a case counts when the spectrum has at least three samples and a query lies strictly between samples (the end values differ, for linear interpolation)",
        assumptions: &["Sprague is queried within [first, last]; outside that range the crate uses the constant extrapolator", "boundary gaps of spectra with fewer than six samples are extended linearly (see DESIGN.md)"],
        subs: vec![
            sub("sprague", 80_000, 30, interp_case, check_sprague),
            sub("constants_and_lines", 40_000, 20, interp_case, check_lines),
            sub("linear_and_constant", 60_000, 20, interp_case, check_linear),
            sub(
                "coefficients",
                20_000,
                20,
                || (proptest::collection::vec(-1.0f64..1.0, 6..20), 0.0f64..1.0, 0.0f64..=1.0).prop_map(|(y, i, t)| Coeff { y, i, t }),
                check_coeff,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ShapeIter {
    start: f64,
    interval: f64,
    n: usize,
    frac: f64,
    decimal: bool,
}

fn shape_iter() -> BoxedStrategy<ShapeIter> {
    (start_nm(), interval(), prop_oneof![3000 => 0usize..100, 1000 => 0usize..3000, 1 => 3000usize..200_000], frac(), any::<bool>())
        .prop_map(|(start, interval, n, frac, decimal)| ShapeIter {
            start,
            interval,
            n,
            frac,
            decimal,
        })
        .boxed()
}

fn check_shape_iter(c: &ShapeIter, o: &mut Obs) -> CheckResult {
    let mut end = c.start + (c.n as f64 + c.frac) * c.interval;
    if c.decimal {
        // the end as a user would type it
        end = (end * 1e4).round() / 1e4;
    }
    if let Some(n) = steps(c.start, end, c.interval) {
        let got: Vec<f64> = SpdShape::new(c.start, end, c.interval).iter().collect();
        let want = grid(c.start, c.interval, n);
        ensure!(got.len() == want.len(), "shape ({}, {}, {}) visits {} wavelengths instead of {}", c.start, end, c.interval, got.len(), want.len());
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            ensure!(close(*g, *w, 1e-9), "wavelength {} of shape ({}, {}, {}) is {} instead of {}", i, c.start, end, c.interval, g, w);
        }
        o.class_if(c.frac == 0.0, "end on the grid");
    }
    // single precision: wavelengths that f32 can tell apart
    let (s32, i32_, e32) = (c.start as f32, c.interval as f32, end as f32);
    let q = (e32 as f64 - s32 as f64) / i32_ as f64;
    let noise = 2.5 * f32::EPSILON as f64 * end.abs() / c.interval;
    let r = q.round();
    let n = if (q - r).abs() <= noise {
        Some(r as usize)
    } else if (q - r).abs() > 6.0 * noise && q > 0.0 {
        Some(q.floor() as usize)
    } else {
        None
    };
    if let (Some(n), true) = (n, noise < 0.02) {
        let got: Vec<f32> = SpdShape::<f32>::new(s32, e32, i32_).iter().collect();
        ensure!(got.len() == n + 1, "single precision shape ({}, {}, {}) visits {} wavelengths instead of {}", s32, e32, i32_, got.len(), n + 1);
        for (i, g) in got.iter().enumerate() {
            let w = s32 as f64 + i as f64 * i32_ as f64;
            ensure!(close(*g as f64, w, 2.0 * f32::EPSILON as f64 * w.abs() + 1e-30), "wavelength {} of single precision shape ({}, {}, {}) is {} instead of {}", i, s32, e32, i32_, g, w);
        }
        o.class("single precision");
    }
    // the shape of the integration method, in either precision
    let (a, b) = (SpdShape::<f64>::astm_e308(), SpdShape::<f32>::astm_e308());
    ensure!(a == SpdShape::new(360.0, 780.0, 1.0), "the E308 shape is {}", a);
    ensure!(b == SpdShape::<f32>::new(360.0, 780.0, 1.0), "the single precision E308 shape is {}", b);
    o.nontrivial_if(c.n > 1);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Resample {
    s: SpecCase,
    op: Op,
    then: Option<Op>,
}

fn resample(kind: fn() -> BoxedStrategy<Op>) -> impl Fn() -> BoxedStrategy<Resample> {
    move || {
        (spec_case(80), kind(), prop_oneof![3 => Just(None), 1 => op().prop_map(Some)])
            .prop_map(|(s, op, then)| Resample { s, op, then })
            .boxed()
    }
}

fn check_resample(c: &Resample, o: &mut Obs) -> CheckResult {
    let spd = c.s.vspd();
    let prev = of_vspd(&spd);
    let r = match step(&spd, &prev, own_interval(&spd), &c.op, &format!("{:?}", c.op), o)? {
        Some(r) => r,
        None => {
            o.class("skipped");
            return Ok(());
        }
    };
    well_formed(&r).map_err(|e| format!("after {:?}: {}", c.op, e))?;
    // aligning to its own shape changes nothing
    if r.len() >= 2 && r.len() < 2000 {
        if let Some(i) = own_interval(&r) {
            let a = r.align(r.shape());
            let t = Sprague::new(&of_vspd(&r)).max * 1e-11;
            same(&format!("aligning to the own shape (interval {})", i), &a, &of_vspd(&r), 1e-9, &|_| t)?;
        }
        if let Some(op) = &c.then {
            let p = of_vspd(&r);
            step(&r, &p, own_interval(&r), op, &format!("{:?} then {:?}", c.op, op), o)?;
        }
    }
    o.nontrivial_if(prev.len() > 2 && r.len() > 1);
    o.class_if(!c.s.odd.is_empty(), "varying");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CmfAlign {
    seen: Seen,
    start: f64,
    interval: f64,
    n: usize,
    frac: f64,
}

fn check_cmf_align(c: &CmfAlign, o: &mut Obs) -> CheckResult {
    let m = &c.seen.cmf();
    ensure!(m.shape() == m.x_bar.shape(), "the observer's shape is {} instead of {}", m.shape(), m.x_bar.shape());
    let sh = SpdShape::new(c.start, c.start + (c.n as f64 + c.frac) * c.interval, c.interval);
    let g = m.align(sh);
    for (name, a, b) in [("x", &g.x_bar, &m.x_bar), ("y", &g.y_bar, &m.y_bar), ("z", &g.z_bar, &m.z_bar)] {
        let r = Resampler::new(&of_vspd(b));
        let want: Spec = grid(c.start, c.interval, c.n).into_iter().map(|w| (w, r.at(w))).collect();
        same(&format!("{} of the aligned observer", name), a, &want, 1e-9, &|w| r.tol(w))?;
    }
    let gs = g.shape();
    ensure!(gs == g.x_bar.shape() && gs == g.y_bar.shape() && gs == g.z_bar.shape(), "aligned observer has shapes {} {} {} {}", gs, g.x_bar.shape(), g.y_bar.shape(), g.z_bar.shape());
    o.nontrivial();
    o.class_if(c.start < 360.0, "starts before the table");
    Ok(())
}

/// Resampling far beyond the measured range
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far {
    s: SpecCase,
    before: (usize, f64),
    after: (usize, f64),
}

fn far() -> BoxedStrategy<Far> {
    let end = || (prop_oneof![1 => Just(0usize), 2 => 1usize..2_000, 2 => 1_000usize..30_000], prop_oneof![1 => Just(0.0), 1 => 0.05f64..0.95]);
    (spec_case(60), end(), end()).prop_map(|(s, before, after)| Far { s, before, after }).boxed()
}

fn check_far(c: &Far, o: &mut Obs) -> CheckResult {
    let s = c.s.vspd();
    let have = c.s.samples();
    let (f, l) = (have[0], have[have.len() - 1]);
    let i = own_interval(&s).unwrap_or(c.s.interval);
    let sh = Shape {
        start: f.0 - (c.before.0 as f64 + c.before.1) * i,
        end: l.0 + (c.after.0 as f64 + c.after.1) * i,
        interval: i,
    };
    if let Some(want) = refspec::extrapolate(&have, sh.start, sh.end, i) {
        let got = s.extrapolate(sh.it());
        // the interval is known to the rounding of the wavelengths
        let t = 1e-9 + (c.before.0 + c.after.0) as f64 * 4.0 * f64::EPSILON * l.0.abs();
        same("extrapolate", &got, &want, t, &exact)?;
        ensure!(got.len() == have.len() + c.before.0 + c.after.0, "extrapolated by {} and {} steps: {} samples from {}", c.before.0, c.after.0, got.len(), have.len());
    }
    if let Some(n) = steps(sh.start, sh.end, i) {
        let got = s.align(sh.it());
        let r = Resampler::new(&have);
        let want: Spec = grid(sh.start, i, n).into_iter().map(|w| (w, r.at(w))).collect();
        same("align", &got, &want, 1e-9, &|w| r.tol(w))?;
    }
    ensure!(bits(&of_vspd(&s)) == bits(&have), "resampling changed its input");
    o.nontrivial_if(c.before.0 > 0 || c.after.0 > 0);
    o.class_if(c.before.0.max(c.after.0) > 1000, "more than 1000 steps");
    Ok(())
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        rule: "a case counts when the spectrum has at least three samples and the result at least two (shapes: at least two steps)",
        assumptions: &["requested shapes whose step count is ambiguous to rounding (beyond the rounding of the ends but within 1e-6 of a step) are skipped; disjoint interpolation ranges and empty trims are outside the operations' domain"],
        subs: vec![
            sub("shape_iteration", 100_000, 20, shape_iter, check_shape_iter),
            sub("align", 30_000, 30, resample(|| prop_oneof![5 => shape_sel(200).prop_map(Op::Align), 1 => Just(Op::AlignOwn)].boxed()), check_resample),
            sub("interpolate", 30_000, 30, resample(|| shape_sel(200).prop_map(Op::Interpolate).boxed()), check_resample),
            sub(
                "extrapolate",
                30_000,
                30,
                resample(|| prop_oneof![5 => shape_sel(200).prop_map(Op::Extrapolate), 1 => (0.0f64..1.0, 0.0f64..1.0).prop_map(|(a, b)| Op::ExtrapolateVaryingShape(a, b))].boxed()),
                check_resample,
            ),
            sub(
                "trim",
                30_000,
                30,
                resample(|| prop_oneof![2 => shape_sel(200).prop_map(Op::Trim), 3 => (0.0f64..1.0, 0.0f64..1.0).prop_map(|(a, b)| Op::TrimBetween(a, b))].boxed()),
                check_resample,
            ),
            sub("far", 1_500, 20, far, check_far),
            sub(
                "observer",
                1_500,
                20,
                || {
                    (seen(), prop_oneof![1 => 300.0f64..850.0, 1 => (300u32..850).prop_map(|x| x as f64)], interval(), 1usize..80, frac()).prop_map(|(seen, start, interval, n, frac)| CmfAlign {
                        seen,
                        start,
                        interval,
                        n,
                        frac,
                    })
                },
                check_cmf_align,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Illum {
    D50,
    D55,
    D60,
    D65,
    Gen(SpecCase),
}

impl Illum {
    pub fn vspd(&self) -> VSPD {
        match self {
            Illum::D50 => illuminant::spd::D50.clone(),
            Illum::D55 => illuminant::spd::D55.clone(),
            Illum::D60 => illuminant::spd::D60.clone(),
            Illum::D65 => illuminant::spd::D65.clone(),
            Illum::Gen(c) => c.vspd(),
        }
    }
}

pub fn illum() -> BoxedStrategy<Illum> {
    let gen = (
        prop_oneof![2 => select(vec![300.0, 360.0, 380.0, 400.0]), 1 => 200.0f64..450.0],
        select(vec![1.0, 2.0, 5.0, 10.0, 20.0, 25.0, 3.5]),
        prop_oneof![3 => Just(vec![]), 1 => proptest::collection::vec((0.0f64..1.0, select(vec![0.5, 1.5, 2.0])), 1..4)],
        prop_oneof![
            3 => proptest::collection::vec(0.6f64..1.4, 6..60),
            1 => proptest::collection::vec(0.6f64..1.4, 2..6),
            1 => (0.1f64..10.0, 2usize..60).prop_map(|(v, n)| vec![v; n]),
            // lines on a weak continuum
            1 => proptest::collection::vec(prop_oneof![5 => 0.02f64..0.1, 1 => 0.5f64..3.0], 6..60),
        ],
        // radiometric units are arbitrary
        prop_oneof![3 => logu(-2.0, 3.0), 1 => logu(-15.0, 15.0)],
    )
        .prop_map(|(start, interval, odd, v, k)| {
            Illum::Gen(SpecCase {
                start,
                interval,
                odd,
                v: v.into_iter().map(|x| x * k).collect(),
            })
        });
    // measured finely: more samples than the integration uses
    let fine = (
        prop_oneof![2 => select(vec![300.0, 360.0, 359.5, 380.0]), 1 => 250.0f64..400.0],
        select(vec![0.25, 0.5, 1.0, 1.25, 2.0]),
        // or as many samples as the integration uses, but not its own
        prop_oneof![2 => (200usize..1200).prop_map(Some), 1 => Just(None)],
        proptest::collection::vec(0.6f64..1.4, 7..40),
    )
        .prop_map(|(start, interval, n, v)| {
            let n = n.unwrap_or((420.0 / interval) as usize + 1);
            Illum::Gen(SpecCase {
                start,
                interval,
                odd: vec![],
                v: (0..n).map(|i| v[(i * i / 7 + i) % v.len()]).collect(),
            })
        });
    prop_oneof![2 => Just(Illum::D50), 2 => Just(Illum::D55), 2 => Just(Illum::D60), 4 => Just(Illum::D65), 8 => gen, 1 => fine].boxed()
}

/// An observer: the CIE one, the CIE one with its functions scaled, or three
/// functions sampled on a grid of their own each
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Seen {
    Cie,
    Scaled([f64; 3]),
    Made([SpecCase; 3]),
}

impl Seen {
    pub fn cmf(&self) -> CMF {
        let c = &cmf::CIE_1931_2_DEGREE;
        let own = |s: Spec| VSPD::new(to_samples(&s));
        match self {
            Seen::Cie => CMF {
                x_bar: own(of_vspd(&c.x_bar)),
                y_bar: own(of_vspd(&c.y_bar)),
                z_bar: own(of_vspd(&c.z_bar)),
            },
            Seen::Scaled(k) => {
                let f = |s: &VSPD, k: f64| own(of_vspd(s).into_iter().map(|p| (p.0, p.1 * k)).collect());
                CMF {
                    x_bar: f(&c.x_bar, k[0]),
                    y_bar: f(&c.y_bar, k[1]),
                    z_bar: f(&c.z_bar, k[2]),
                }
            }
            Seen::Made(s) => CMF {
                x_bar: s[0].vspd(),
                y_bar: s[1].vspd(),
                z_bar: s[2].vspd(),
            },
        }
    }
    pub fn reference(&self) -> RefCmf {
        match self {
            Seen::Cie => RefCmf::cie().clone(),
            Seen::Scaled(k) => {
                let mut r = RefCmf::cie().clone();
                for i in 0..3 {
                    r.v[i].iter_mut().for_each(|v| *v *= k[i]);
                }
                r
            }
            Seen::Made(s) => {
                let f = |s: &SpecCase| {
                    let r = Resampler::new(&s.samples());
                    (grid(360.0, 1.0, 420).into_iter().map(|w| r.at(w)).collect::<Vec<_>>(), r.tol(800.0))
                };
                let (x, y, z) = (f(&s[0]), f(&s[1]), f(&s[2]));
                // relative to the mean of the function that normalises
                let m = y.0.iter().map(|v| v.abs()).sum::<f64>() / 421.0;
                RefCmf {
                    tol: (x.1 + y.1 + z.1) / m,
                    v: [x.0, y.0, z.0],
                }
            }
        }
    }
}

pub fn seen() -> BoxedStrategy<Seen> {
    // the luminance function stays positive, so that it can normalise
    let one = |lo: f64, hi: f64| {
        (
            prop_oneof![3 => select(vec![360.0, 380.0, 390.0, 400.0, 300.0]), 1 => 250.0f64..450.0],
            select(vec![1.0, 5.0, 10.0, 20.0, 2.0, 3.5, 12.0]),
            prop_oneof![3 => Just(vec![]), 1 => proptest::collection::vec((0.0f64..1.0, select(vec![0.5, 1.5])), 1..3)],
            proptest::collection::vec(lo..hi, 2..70),
        )
            .prop_map(|(start, interval, odd, v)| SpecCase { start, interval, odd, v })
    };
    let apart = (one(-0.5, 2.0), one(0.7, 1.3), one(-0.5, 2.0)).prop_map(|(x, y, z)| Seen::Made([x, y, z]));
    // the usual case: one grid for all three
    let together = (one(0.0, 2.0), one(0.7, 1.3), one(0.0, 2.0)).prop_map(|(x, y, z)| {
        let n = x.v.len().min(y.v.len()).min(z.v.len());
        let mk = |s: &SpecCase| SpecCase {
            start: y.start,
            interval: y.interval,
            odd: y.odd.clone(),
            v: s.v[..n].to_vec(),
        };
        Seen::Made([mk(&x), mk(&y), mk(&z)])
    });
    // measured finely over more than the range of the integration
    let wide = (
        select(vec![359.5, 360.0, 359.0, 340.0, 350.25, 300.0, 355.5, 358.0]),
        select(vec![0.5, 1.0, 1.0, 1.0, 2.0, 5.0]),
        prop_oneof![Just(0.0), 0.0f64..60.0],
        [0.0f64, 0.7, 0.0].map(|lo| proptest::collection::vec(lo..1.3, 7..40)),
        prop_oneof![2 => Just(false), 1 => Just(true)],
    )
        .prop_map(|(start, interval, past, v, exact)| {
            let n = ((780.0 + past - start) / interval).ceil() as usize + 1;
            // or as many samples as the integration uses, but not its own
            let n = if exact { (420.0 / interval) as usize + 1 } else { n };
            Seen::Made(v.map(|v| SpecCase {
                start,
                interval,
                odd: vec![],
                v: (0..n).map(|i| v[(i * i / 7 + i) % v.len()]).collect(),
            }))
        });
    prop_oneof![
        4 => Just(Seen::Cie),
        1 => proptest::array::uniform3(prop_oneof![2 => logu(-2.0, 2.0), 1 => logu(-12.0, 12.0)]).prop_map(Seen::Scaled),
        1 => apart,
        2 => together,
        1 => wide,
    ]
    .boxed()
}

/// Reference observer on the integers 360..=780; the CIE one is the table
/// itself (checked by C23)
#[derive(Clone)]
pub struct RefCmf {
    v: [Vec<f64>; 3],
    tol: f64,
}
impl RefCmf {
    pub fn cie() -> &'static RefCmf {
        static CIE: std::sync::OnceLock<RefCmf> = std::sync::OnceLock::new();
        CIE.get_or_init(|| {
            let m = &cmf::CIE_1931_2_DEGREE;
            let f = |s: &VSPD| s.values().take(421).collect::<Vec<_>>();
            RefCmf {
                v: [f(&m.x_bar), f(&m.y_bar), f(&m.z_bar)],
                tol: 0.0,
            }
        })
    }
}

pub enum Method {
    Nm1,
    Nm5,
    Either,
    Weights,
}

/// Which E308 method applies to these wavelengths
pub fn method(s: &[(f64, f64)]) -> Method {
    let n = s.len();
    let gaps: Vec<f64> = s.windows(2).map(|w| w[1].0 - w[0].0).collect();
    let (lo, hi) = gaps.iter().fold((f64::INFINITY, 0.0f64), |a, g| (a.0.min(*g), a.1.max(*g)));
    let mean = (s[n - 1].0 - s[0].0) / (n - 1) as f64;
    if hi - lo > 1e-7 {
        return Method::Nm1;
    }
    let exact = lo == hi;
    if exact && mean == 5.0 {
        Method::Nm5
    } else if mean > 5.0 - 1e-6 && mean < 6.0 {
        Method::Either
    } else if exact && mean == 10.0 && (s[0].0 - 360.0) % 10.0 == 0.0 {
        if s[n - 1].0 < 360.0 || s[0].0 > 780.0 {
            Method::Nm1
        } else {
            Method::Weights
        }
    } else {
        Method::Nm1
    }
}

/// Reference XYZ and its admissible rounding
pub fn ref_xyz(s: &[(f64, f64)], il: &[(f64, f64)], how: &Method) -> ([f64; 3], f64) {
    ref_xyz_by(s, il, RefCmf::cie(), how)
}

pub fn ref_xyz_by(s: &[(f64, f64)], il: &[(f64, f64)], cm: &RefCmf, how: &Method) -> ([f64; 3], f64) {
    let r = Resampler::new(s);
    let e = Resampler::new(il);
    let at = |k: usize| {
        let c = &cm.v[k];
        move |w: f64| c[(w - 360.0).round() as usize]
    };
    let (x, y, z) = (at(0), at(1), at(2));
    let c: [&dyn Fn(f64) -> f64; 3] = [&x, &y, &z];
    let illum = |w: f64| e.at(w);
    let one = |_: f64| 1.0;
    let (xyz, mag) = match how {
        Method::Nm1 | Method::Either => {
            let g = grid(360.0, 1.0, 420);
            (refspec::integrate(&g, &|w| r.at(w), &illum, &c).0, refspec::integrate(&g, &one, &illum, &c).1)
        }
        Method::Nm5 => {
            let g = grid(360.0, 5.0, 84);
            (refspec::integrate(&g, &|w| r.at(w), &illum, &c).0, refspec::integrate(&g, &one, &illum, &c).1)
        }
        Method::Weights => {
            // the samples on the 10 nm grid, end values extended
            let node: Vec<f64> = grid(360.0, 10.0, 42)
                .into_iter()
                .map(|w| {
                    if w <= s[0].0 {
                        s[0].1
                    } else if w >= s[s.len() - 1].0 {
                        s[s.len() - 1].1
                    } else {
                        s.iter().find(|p| p.0 == w).expect("on grid").1
                    }
                })
                .collect();
            let g = grid(360.0, 1.0, 420);
            (
                refspec::integrate(&g, &|w| refspec::lagrange_piecewise(&node, (w - 360.0) / 10.0), &illum, &c).0,
                refspec::integrate(&g, &one, &illum, &c).1,
            )
        }
    };
    let rmax = Sprague::new(s).max;
    // rounding of an illuminant with lines: its resampling error is relative
    // to its maximum, not to its value
    let csum: f64 = cm.v.iter().map(|c| c.iter().map(|v| v.abs()).sum::<f64>()).sum();
    let n: f64 = grid(360.0, 1.0, 420).iter().map(|w| e.at(*w) * y(*w)).sum::<f64>().abs();
    let line = rmax * e.tol(800.0) * csum * (100.0 + mag) / n;
    (xyz, line + mag * (r.tol(800.0) + rmax * (2e-11 + 4.0 * cm.tol + e.tol(800.0) / refspec::vmax(il) * 4.0)))
}

pub fn tuple(x: colorspace::XYZf64) -> [f64; 3] {
    [x.x, x.y, x.z]
}

fn check_one_xyz(what: &str, s: &VSPD, il: &VSPD, seen: &Seen, o: &mut Obs) -> Result<[f64; 3], String> {
    let own = seen.cmf();
    let cm = seen.reference();
    let g = tuple(match seen {
        Seen::Cie => s.to_xyz(il, &cmf::CIE_1931_2_DEGREE),
        _ => s.to_xyz(il, &own),
    });
    let (sp, ip) = (of_vspd(s), of_vspd(il));
    let how = method(&sp);
    let (w, t) = ref_xyz_by(&sp, &ip, &cm, &how);
    let mut ok = (0..3).all(|k| close(g[k], w[k], t));
    if let Method::Either = how {
        let (w5, t5) = ref_xyz_by(&sp, &ip, &cm, &Method::Nm5);
        ok |= (0..3).all(|k| close(g[k], w5[k], t5));
    }
    o.class(match how {
        Method::Nm1 => "1 nm integration",
        Method::Nm5 => "5 nm integration",
        Method::Either => "between 5 and 6 nm",
        Method::Weights => "10 nm weights",
    });
    ensure!(ok, "{}: XYZ is {:?} instead of {:?} (tolerance {:e})", what, g, w, t);
    Ok(g)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ToXyz {
    s: SpecCase,
    il: Illum,
    seen: Seen,
    v2: Vec<f64>,
    k: [f64; 2],
    ik: f64,
}

pub fn reflectance() -> BoxedStrategy<SpecCase> {
    let v = |lo: usize, hi: usize| values((lo..=hi).boxed());
    // the standard samplings, on and off the standard grid
    let iv = |i: f64| (prop_oneof![5 => select(vec![360.0, 380.0, 400.0, 350.0, 340.0, 300.0, 390.0, 410.0, 700.0, 770.0]), 1 => (200u32..860).prop_map(|x| x as f64), 1 => (2000u32..8600).prop_map(|x| x as f64 / 10.0)], Just(i));
    let std = prop_oneof![
        2 => (iv(10.0), v(2, 60)),
        1 => (iv(5.0), v(2, 100)),
        1 => (iv(1.0), v(2, 450)),
        1 => (iv(20.0), v(2, 30)),
        1 => (prop_oneof![iv(0.5), iv(0.25), iv(1.0), iv(2.0)], v(400, 900)),
    ]
    .prop_map(|((start, interval), v)| SpecCase {
        start,
        interval,
        odd: vec![],
        v,
    });
    // multiples of ten covering, inside, beyond the range
    let on10 = (20i32..90, v(2, 70)).prop_map(|(k, v)| SpecCase {
        start: k as f64 * 10.0,
        interval: 10.0,
        odd: vec![],
        v,
    });
    let fractional = (200.0f64..700.0, select(vec![10.0, 10.0, 5.0, 1.0, 10.5, 10.000001, 9.999999, 5.5, 1.5, 0.5]), v(2, 60)).prop_map(|(start, interval, v)| SpecCase {
        start,
        interval,
        odd: vec![],
        v,
    });
    let odd10 = (20i32..60, v(3, 50), odd()).prop_map(|(k, v, odd)| SpecCase {
        start: k as f64 * 10.0,
        interval: 10.0,
        odd,
        v,
    });
    prop_oneof![4 => std, 2 => on10, 2 => fractional, 1 => odd10, 3 => spec_case(80)].boxed()
}

fn toxyz() -> BoxedStrategy<ToXyz> {
    reflectance()
        .prop_flat_map(|s| {
            let n = s.v.len();
            (Just(s), illum(), seen(), proptest::collection::vec(0.0f64..1.0, n..=n), proptest::array::uniform2(-2.0f64..2.0), prop_oneof![2 => logu(-3.0, 3.0), 1 => logu(-15.0, 15.0)])
        })
        .prop_map(|(s, il, seen, v2, k, ik)| ToXyz { s, il, seen, v2, k, ik })
        .boxed()
}

fn check_toxyz(c: &ToXyz, o: &mut Obs) -> CheckResult {
    let s = c.s.vspd();
    let il = c.il.vspd();
    let before = (bits(&of_vspd(&s)), bits(&of_vspd(&il)));
    check_one_xyz("spectrum", &s, &il, &c.seen, o)?;
    o.class_if(!matches!(c.seen, Seen::Cie), "other observer");
    ensure!((bits(&of_vspd(&s)), bits(&of_vspd(&il))) == before, "to_xyz changed its inputs");
    o.nontrivial_if(s.len() > 2 && c.s.v.iter().any(|v| *v != c.s.v[0]));
    o.class_if(!c.s.odd.is_empty(), "varying");
    o.class_if(s.first().nm > 360.0 && s.last().nm < 780.0, "inside the range");
    o.class_if(s.first().nm > 780.0 || s.last().nm < 360.0, "outside the range");
    Ok(())
}

fn check_toxyz_laws(c: &ToXyz, o: &mut Obs) -> CheckResult {
    let own = c.seen.cmf();
    let obs = &own;
    let cm = c.seen.reference();
    let base = c.s.samples();
    let s1 = c.s.vspd();
    let il = c.il.vspd();
    let mk = |f: &dyn Fn(usize) -> f64| VSPD::new(base.iter().enumerate().map(|(i, p)| Sample::new(p.0, f(i))).collect());
    let s2 = mk(&|i| c.v2[i]);
    let (a, b) = (c.k[0], c.k[1]);
    let s3 = mk(&|i| a * base[i].1 + b * c.v2[i]);
    let one = mk(&|_| 1.0);
    let (x1, x2, x3) = (tuple(s1.to_xyz(&il, obs)), tuple(s2.to_xyz(&il, obs)), tuple(s3.to_xyz(&il, obs)));
    let m = Sprague::new(&base).max.max(1.0);
    let (_, unit) = ref_xyz_by(&of_vspd(&one), &of_vspd(&il), &cm, &Method::Nm1);
    let (_, t1) = ref_xyz_by(&base, &of_vspd(&il), &cm, &Method::Nm1);
    let tol = 4.0 * (a.abs() + b.abs() + 1.0) * (t1 + unit * m * 4.0);
    for k in 0..3 {
        let w = a * x1[k] + b * x2[k];
        ensure!(close(x3[k], w, tol), "XYZ is not linear in the spectrum: component {} is {} instead of {}", k, x3[k], w);
    }
    // scaling the illuminant changes nothing
    let ils = &il * c.ik;
    let xs = tuple(s1.to_xyz(&ils, obs));
    for k in 0..3 {
        ensure!(close(xs[k], x1[k], tol), "scaling the illuminant by {} changes XYZ from {:?} to {:?}", c.ik, x1, xs);
    }
    // scaling the spectrum scales the result
    let xk = tuple((&s1 * 2.5).to_xyz(&il, obs));
    for k in 0..3 {
        ensure!(close(xk[k], 2.5 * x1[k], 4.0 * tol), "scaling the spectrum by 2.5 gives {:?} from {:?}", xk, x1);
    }
    // perfect diffuser: Y = 100 and the illuminant's own XYZ
    let w = tuple(one.to_xyz(&il, obs));
    let wt = 1e-7 + 4.0 * unit;
    ensure!(close(w[1], 100.0, 1e-7), "the perfect diffuser has Y = {}", w[1]);
    let want = |m: &Method| ref_xyz_by(&of_vspd(&one), &of_vspd(&il), &cm, m).0;
    let white = |m: &Method| {
        let v = want(m);
        (0..3).all(|k| close(w[k], v[k], wt))
    };
    let ok = match method(&base) {
        Method::Nm5 => white(&Method::Nm5),
        Method::Either => white(&Method::Nm5) || white(&Method::Nm1),
        _ => white(&Method::Nm1),
    };
    ensure!(ok, "the perfect diffuser gives {:?} instead of the illuminant's {:?}", w, want(&method(&base)));
    o.nontrivial_if(base.len() > 2);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Smooth {
    amp: [f64; 4],
    phase: [f64; 4],
    il: Illum,
    iv: f64,
    start: f64,
    odd: Vec<(f64, f64)>,
}

fn check_smooth(c: &Smooth, o: &mut Obs) -> CheckResult {
    let obs = &cmf::CIE_1931_2_DEGREE;
    let f = |w: f64| 0.5 + (0..4).map(|k| 0.1 * c.amp[k] * ((k + 1) as f64 * std::f64::consts::PI * (w - 360.0) / 420.0 + c.phase[k]).cos()).sum::<f64>();
    let il = c.il.vspd();
    let fine: VSPD = grid(360.0, 1.0, 420).into_iter().map(|w| (w, f(w))).collect();
    let n = ((790.0 - c.start) / c.iv).ceil() as usize;
    let sc = SpecCase {
        start: c.start,
        interval: c.iv,
        odd: c.odd.clone(),
        v: vec![0.0; n + 1],
    };
    let other: VSPD = sc.samples().into_iter().map(|p| (p.0, f(p.0))).collect();
    let (a, b) = (tuple(fine.to_xyz(&il, obs)), tuple(other.to_xyz(&il, obs)));
    let tol = if c.odd.is_empty() { 0.25 } else { 0.8 };
    if std::env::var_os("CSVERIF_PROBE").is_some() {
        let d = (0..3).map(|k| (a[k] - b[k]).abs()).fold(0.0, f64::max);
        if d > tol * 0.2 {
            eprintln!("probe {} {} odd {:?} il {:?}", d, c.iv, c.odd, c.il);
        }
    }
    for k in 0..3 {
        ensure!(close(a[k], b[k], tol), "a smooth spectrum sampled from {} at {} nm gives {:?}, at 1 nm {:?}", c.start, c.iv, b, a);
    }
    o.nontrivial_if(c.iv != 1.0 && c.amp.iter().any(|a| *a != 0.0));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Diffuser {
    il: u8,
    s: SpecCase,
}

fn check_diffuser(c: &Diffuser, o: &mut Obs) -> CheckResult {
    // the published chromaticity of each daylight illuminant
    let (il, xy) = match c.il {
        0 => (&*illuminant::spd::D50, (0.34570, 0.35850)),
        1 => (&*illuminant::spd::D55, (0.33243, 0.34744)),
        2 => (&*illuminant::spd::D60, (0.32163, 0.33774)),
        _ => (&*illuminant::spd::D65, (0.31270, 0.32900)),
    };
    let one: VSPD = c.s.samples().into_iter().map(|p| (p.0, 1.0)).collect();
    let w = tuple(one.to_xyz(il, &cmf::CIE_1931_2_DEGREE));
    let s = w[0] + w[1] + w[2];
    ensure!(close(w[1], 100.0, 1e-7), "the perfect diffuser has Y = {}", w[1]);
    ensure!(close(w[0] / s, xy.0, 2e-4) && close(w[1] / s, xy.1, 2e-4), "the perfect diffuser under D illuminant {} has chromaticity ({}, {}) instead of {:?}", c.il, w[0] / s, w[1] / s, xy);
    o.nontrivial();
    Ok(())
}

pub fn c15() -> Property {
    Property {
        id: "C15",
        rule: "a case counts when the spectrum has at least three samples and is not constant (laws: at least three samples; smooth: not the 1 nm sampling itself)",
        assumptions: &["the CIE observer table is taken from the crate and checked by C23; made observers have a positive luminance function", "samplings between 5 and 6 nm may use either of the two integrations (the statement does not fix it)"],
        subs: vec![
            sub("e308_reference", 40_000, 30, toxyz, check_toxyz),
            sub("laws", 8_000, 30, toxyz, check_toxyz_laws),
            sub(
                "smooth_sampling",
                2_000,
                30,
                || {
                    (
                        proptest::array::uniform4(-1.0f64..1.0),
                        proptest::array::uniform4(0.0f64..6.28),
                        prop_oneof![Just(Illum::D50), Just(Illum::D55), Just(Illum::D60), Just(Illum::D65)],
                        select(vec![1.0, 2.0, 3.0, 4.0, 5.0, 7.0, 10.0, 10.5, 12.0, 15.0, 20.0]),
                        select(vec![360.0, 350.0, 340.0, 355.0, 351.0, 352.5]),
                        prop_oneof![3 => Just(vec![]), 1 => (0.05f64..0.95, select(vec![0.5, 2.0])).prop_map(|x| vec![x])],
                    )
                        .prop_map(|(amp, phase, il, iv, start, odd)| Smooth {
                            amp,
                            phase,
                            il,
                            iv,
                            start,
                            odd,
                        })
                },
                check_smooth,
            ),
            sub("diffuser", 800, 20, || (0u8..4, reflectance()).prop_map(|(il, s)| Diffuser { il, s }), check_diffuser),
        ],
    }
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lagrange {
    interval: u32,
    degree: usize,
}

fn check_lagrange(c: &Lagrange, o: &mut Obs) -> CheckResult {
    let t = lagrange_coefficients_astm_e2022(c.interval as f64, c.degree);
    let n = c.degree;
    ensure!(t.len() == c.interval as usize - 1, "interval {}: {} rows instead of {}", c.interval, t.len(), c.interval - 1);
    let shift = if n == 4 { 1.0 } else { 0.0 };
    for (k, row) in t.iter().enumerate() {
        ensure!(row.len() == n, "interval {} degree {}: row {} has {} coefficients", c.interval, n, k, row.len());
        let r = (k + 1) as f64 / c.interval as f64 + shift;
        let mag: f64 = row.iter().map(|x| x.abs()).sum();
        let sum: f64 = row.iter().sum();
        ensure!(close(sum, 1.0, 1e-12 * mag.max(1.0)), "interval {} degree {}: row {} sums to {}", c.interval, n, k, sum);
        // polynomials in (x - centre), to keep the sizes down
        let centre = (n as f64 - 1.0) / 2.0;
        for p in 0..n as i32 {
            let g: f64 = row.iter().enumerate().map(|(i, l)| l * (i as f64 - centre).powi(p)).sum();
            let w = (r - centre).powi(p);
            let t = 1e-12 * mag.max(1.0) * centre.max(1.0).powi(p);
            ensure!(close(g, w, t), "interval {} degree {}: row {} gives {} for (x-{})^{} at {} instead of {}", c.interval, n, k, g, centre, p, r, w);
        }
        // each coefficient from the definition
        for j in 0..n {
            let mut num = 1.0;
            let mut den = 1.0;
            for i in 0..n {
                if i != j {
                    num *= r - i as f64;
                    den *= j as f64 - i as f64;
                }
            }
            ensure!(close(row[j], num / den, 1e-12 * mag.max(1.0)), "interval {} degree {}: coefficient ({}, {}) is {} instead of {}", c.interval, n, k, j, row[j], num / den);
        }
    }
    o.nontrivial_if(c.interval > 2 && n > 1);
    o.class_if(n == 4, "four points");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lin {
    start: f64,
    end: f64,
    steps: usize,
}

fn check_linspace(c: &Lin, o: &mut Obs) -> CheckResult {
    let m = c.start.abs().max(c.end.abs());
    let tol = 8.0 * f64::EPSILON * m;
    let mut n = 0;
    for (i, x) in linspace(c.start, c.end, c.steps).take(c.steps + 1).enumerate() {
        n += 1;
        let w = if c.steps == 1 {
            c.start
        } else {
            let t = i as f64 / (c.steps - 1) as f64;
            c.start * (1.0 - t) + c.end * t
        };
        ensure!(close(x, w, tol), "linspace({}, {}, {})[{}] is {} instead of {}", c.start, c.end, c.steps, i, x, w);
        if n > c.steps {
            break;
        }
    }
    ensure!(n == c.steps, "linspace({}, {}, {}) has {} values", c.start, c.end, c.steps, if n > c.steps { "more".to_string() } else { n.to_string() });
    o.nontrivial_if(c.steps > 2 && c.start != c.end);
    o.class_if(c.steps < 2, "fewer than two");
    o.class_if(c.end < c.start, "descending");
    Ok(())
}

pub fn c16() -> Property {
    Property {
        id: "C16",
        rule: "a table counts when it has at least two rows of at least two points; a linspace when it has at least three values between different ends",
        assumptions: &["degree counts points; tables of up to eight points and intervals of 1 to 1000 nm enumerated completely; up to 12 points and 30000 nm generated"],
        subs: vec![
            enumerate(
                "lagrange",
                |_| 1000 * 8,
                |i| Lagrange {
                    interval: (i / 8) as u32 + 1,
                    degree: (i % 8) as usize + 1,
                },
                check_lagrange,
            ),
            sub(
                "lagrange_long",
                300,
                20,
                || (prop_oneof![1 => 1u32..1000, 2 => 1000u32..5000, 1 => 5000u32..30000], 1usize..=12).prop_map(|(interval, degree)| Lagrange { interval, degree }),
                check_lagrange,
            ),
            sub(
                "linspace",
                30_000,
                20,
                || (scalar(6.0), scalar(6.0), prop_oneof![8 => 0usize..5, 12 => 0usize..200, 4 => 0usize..3000, 1 => 3000usize..70_000]).prop_map(|(start, end, steps)| Lin { start, end, steps }),
                check_linspace,
            ),
            // beyond what single precision and 16 bits count
            enumerate(
                "linspace_long",
                |_| 6,
                |i| Lin {
                    start: [0.0, -1.0, 380.0][i as usize % 3],
                    end: [1.0, 3.0, 780.0][i as usize % 3],
                    steps: [65_537, 1 << 20, (1 << 24) + 1, 20_000_003, 40_000_001, 70_001][i as usize],
                },
                check_linspace,
            ),
        ],
    }
}
