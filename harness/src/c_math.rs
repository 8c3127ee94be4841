//! C10-C11: matrices and tristimulus vectors.
use crate::c_color::{rgb_d, rgb_of, xyz_d, xyz_of};
use crate::engine::*;
use crate::fp::*;
use crate::gen::*;
use crate::{by_precision, ensure};
use colorspace::math;
use colorspace::rgb::{self, rgbaf32, RGBf};
use colorspace::xyz::{self, XYZ};
use colorspace::*;
use float_cmp::ApproxEq;
use num_traits::{Bounded, One, Zero};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C10

type A9 = [f64; 9];

fn m3_of9<T: Fp>(a: &A9) -> M3 {
    let r = |i: usize| rnd::<T>(a[i]);
    [[r(0), r(1), r(2)], [r(3), r(4), r(5)], [r(6), r(7), r(8)]]
}

fn entry() -> BoxedStrategy<f64> {
    prop_oneof![
        5 => -2.0f64..2.0,
        2 => (-4i32..=4).prop_map(|k| k as f64),
        1 => Just(0.0),
        1 => Just(1.0),
        1 => (sign(), logu(-7.0, 1.0)).prop_map(|(s, x)| s * x),
    ]
    .boxed()
}

/// Matrices of every structure, each entry class combined with a shape mask
fn any_matrix() -> BoxedStrategy<A9> {
    let dense = proptest::array::uniform9(entry()).boxed();
    let diagonal_dominant = (proptest::array::uniform9(-1.0f64..1.0), proptest::array::uniform3(select(vec![-3.0, -2.0, 2.0, 3.0, 4.0])))
        .prop_map(|(mut m, d)| {
            for i in 0..3 {
                m[i * 4] += d[i];
            }
            m
        })
        .boxed();
    let colour = select(vec![
        [0.4124, 0.3576, 0.1805, 0.2126, 0.7152, 0.0722, 0.0193, 0.1192, 0.9505],
        [3.2406, -1.5372, -0.4986, -0.9689, 1.8758, 0.0415, 0.0557, -0.2040, 1.0570],
        [0.9525523959, 0.0, 0.0000936786, 0.3439664498, 0.7281660966, -0.0721325464, 0.0, 0.0, 1.0088251844],
        [0.8951, 0.2664, -0.1614, -0.7502, 1.7135, 0.0367, 0.0389, -0.0685, 1.0296],
        [0.40024, 0.7076, -0.08081, -0.2263, 1.16532, 0.0457, 0.0, 0.0, 0.91822],
        [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0],
    ])
    .boxed();
    let base = prop_oneof![4 => dense, 4 => diagonal_dominant, 1 => colour].boxed();
    // structure: mask / overwrite
    (base, 0u8..16, 0usize..6, proptest::array::uniform3(sign()))
        .prop_map(|(mut m, s, perm, sg)| {
            let p = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][perm];
            match s {
                0 => {
                    // Imath affine: last column (0,0,1)
                    m[2] = 0.0;
                    m[5] = 0.0;
                    m[8] = 1.0;
                }
                1 => {
                    m[6] = 0.0;
                    m[7] = 0.0;
                    m[8] = 1.0;
                }
                2 => {
                    m[3] = 0.0;
                    m[6] = 0.0;
                    m[7] = 0.0;
                }
                3 => {
                    m[1] = 0.0;
                    m[2] = 0.0;
                    m[5] = 0.0;
                }
                4 => {
                    // permuted diagonal
                    let d = [m[0], m[4], m[8]];
                    m = [0.0; 9];
                    for i in 0..3 {
                        m[i * 3 + p[i]] = if d[i] == 0.0 { sg[i] } else { d[i] };
                    }
                }
                5 => {
                    // zero diagonal
                    m[0] = 0.0;
                    m[4] = 0.0;
                    m[8] = 0.0;
                }
                6 => {
                    // permuted rows
                    let c = m;
                    for i in 0..3 {
                        for j in 0..3 {
                            m[i * 3 + j] = c[p[i] * 3 + j];
                        }
                    }
                }
                7 => m[0] = 0.0,
                8 => m[0] = 1e-9,
                9 => {
                    // second pivot vanishes after the first elimination
                    if m[0] != 0.0 {
                        m[4] = m[3] * m[1] / m[0];
                    }
                }
                10 => {
                    // translation only
                    m = [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, m[6], m[7], 1.0];
                }
                _ => {}
            }
            m
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct InvCase {
    single: bool,
    m: A9,
    exp: f64,
}

fn inv_check(c: &InvCase, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &InvCase, o: &mut Obs) -> CheckResult {
        let scale = 10f64.powf(if T::SINGLE { c.exp * 6.0 } else { c.exp * 40.0 });
        let mut a = c.m;
        if c.exp != 0.0 {
            for x in a.iter_mut() {
                *x *= scale;
            }
        }
        let m = m3_of9::<T>(&a);
        let inv = m3_inv(&m);
        let cond = m3_norm(&m) * m3_norm(&inv);
        if inv.iter().flatten().any(|v| !v.is_finite()) || !cond.is_finite() || cond > if T::SINGLE { 300.0 } else { 1e5 } {
            return Ok(());
        }
        o.nontrivial();
        o.class_if(m[0][2] == 0.0 && m[1][2] == 0.0 && m[2][2] == 1.0, "affine");
        o.class_if(m[0][0] == 0.0, "zero first pivot");
        o.class_if(c.exp != 0.0, "scaled");
        let mt: Matrix33<T> = m3_to(&m);
        let tol = 16.0 * T::EPS * cond + 4.0 * T::EPS * cond * cond;
        for (name, got) in [("inverse", mt.inverse()), ("gj_inverse", mt.gj_inverse())] {
            let g = match got {
                Some(g) => m3_from(&g),
                None => return Err(format!("{}: no inverse for {:?} (condition {:.1})", name, m, cond)),
            };
            for (p, side) in [(m3_mul(&m, &g), "M*inv"), (m3_mul(&g, &m), "inv*M")] {
                for i in 0..3 {
                    for j in 0..3 {
                        ensure!(close(p[i][j], ID3[i][j], tol), "{}: {} [{}][{}] is {:e} for {:?}", name, side, i, j, p[i][j], m);
                    }
                }
            }
            let n = m3_norm(&inv);
            for i in 0..3 {
                for j in 0..3 {
                    ensure!(close(g[i][j], inv[i][j], tol * n), "{}: [{}][{}] is {:e}, expected {:e} for {:?}", name, i, j, g[i][j], inv[i][j], m);
                }
            }
        }
        ensure!(m3_from(&mt) == m, "input changed");
        // Elimination divides by pivots, never by a determinant: it works at
        // scales at which the determinant underflows or overflows.
        let s = 2f64.powi((c.exp * if T::SINGLE { 90.0 } else { 800.0 }) as i32);
        let mut m = m3_of9::<T>(&c.m);
        let inv = m3_inv(&m);
        let cond = m3_norm(&m) * m3_norm(&inv);
        if c.exp == 0.0 || !(cond <= if T::SINGLE { 300.0 } else { 1e5 }) {
            return Ok(());
        }
        let tol = 16.0 * T::EPS * cond + 4.0 * T::EPS * cond * cond;
        m.iter_mut().flatten().for_each(|x| *x *= s);
        let mt: Matrix33<T> = m3_to(&m);
        let g = match mt.gj_inverse() {
            Some(g) => m3_from(&g),
            None => return Err(format!("gj_inverse: no inverse for {:?} (condition {:.1})", m, cond)),
        };
        for i in 0..3 {
            for j in 0..3 {
                ensure!(close(g[i][j] * s, inv[i][j], tol * m3_norm(&inv)), "gj_inverse: [{}][{}] is {:e} instead of {:e} for {:?}", i, j, g[i][j], inv[i][j] / s, m);
            }
        }
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

/// A block of two rows next to a one: the parts do not touch, so each is
/// inverted as well as it is conditioned itself, whatever their scales.
fn block_check(c: &InvCase, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &InvCase, o: &mut Obs) -> CheckResult {
        let s = 2f64.powi((c.exp * if T::SINGLE { 40.0 } else { 350.0 }) as i32);
        let b = [rnd::<T>(c.m[0]), rnd::<T>(c.m[1]), rnd::<T>(c.m[3]), rnd::<T>(c.m[4])];
        let det = b[0] * b[3] - b[1] * b[2];
        let big = b.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        let cond = 4.0 * big * big / det.abs();
        if !(cond <= if T::SINGLE { 300.0 } else { 1e5 }) || !(big > 1e-3 && big < 1e3) {
            return Ok(());
        }
        o.nontrivial();
        let inv = [b[3] / det / s, -b[1] / det / s, -b[2] / det / s, b[0] / det / s];
        let n = 2.0 * big / det.abs() / s;
        let tol = 16.0 * T::EPS * cond + 4.0 * T::EPS * cond * cond;
        let b = b.map(|v| v * s);
        let places: [[usize; 4]; 2] = [[0, 1, 3, 4], [4, 5, 7, 8]];
        for (place, one) in places.iter().zip([8, 0]) {
            let mut m = [0.0; 9];
            let mut want = [0.0; 9];
            m[one] = 1.0;
            want[one] = 1.0;
            for k in 0..4 {
                m[place[k]] = b[k];
                want[place[k]] = inv[k];
            }
            let mt: Matrix33<T> = m3_to(&m3_of9::<T>(&m));
            for (name, got) in [("inverse", mt.inverse()), ("gj_inverse", mt.gj_inverse())] {
                let g = match got {
                    Some(g) => g,
                    None => return Err(format!("{}: no inverse for {:?} (each block well-conditioned)", name, m)),
                };
                for k in 0..9 {
                    let allowed = if place.contains(&k) { tol * n } else if k == one { 8.0 * T::EPS } else { 0.0 };
                    ensure!(close(g.x[k].d(), want[k], allowed), "{}: element {} is {:e} instead of {:e} for {:?}", name, k, g.x[k].d(), want[k], m);
                }
            }
        }
        o.class_if(s < 1e-6, "small block");
        o.class_if(s > 1e6, "large block");
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SingCase {
    single: bool,
    m: [i32; 9],
    kind: u8,
    which: usize,
    k: i32,
}

/// Exactly singular matrices of small integers. `inverse` (cofactors) is
/// exact on them; elimination is exact for zero rows and columns and for rows
/// that are +-2^k multiples of each other.
fn sing_check(c: &SingCase, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &SingCase, o: &mut Obs) -> CheckResult {
        let mut m = c.m;
        let (i, j) = (c.which % 3, (c.which + 1 + c.which / 3 % 2) % 3);
        let mut exact_elimination = true;
        match c.kind {
            0 => (0..3).for_each(|t| m[i * 3 + t] = 0),
            1 => (0..3).for_each(|t| m[t * 3 + i] = 0),
            2 => {
                let f = if c.k >= 0 { 1 << (c.k % 4) } else { -(1 << (-c.k % 4)) };
                (0..3).for_each(|t| m[i * 3 + t] = f * m[j * 3 + t])
            }
            3 => {
                // column combination
                let l = 3 - i - j;
                (0..3).for_each(|t| m[t * 3 + i] = c.k * m[t * 3 + j] + m[t * 3 + l]);
                exact_elimination = false;
            }
            4 => {
                let l = 3 - i - j;
                (0..3).for_each(|t| m[i * 3 + t] = c.k * m[j * 3 + t] - m[l * 3 + t]);
                exact_elimination = false;
            }
            _ => m = [0; 9],
        }
        // the affine form is exact too
        let a: Vec<f64> = m.iter().map(|v| *v as f64).collect();
        let mm: M3 = [[a[0], a[1], a[2]], [a[3], a[4], a[5]], [a[6], a[7], a[8]]];
        debug_assert!(m3_det(&mm) == 0.0);
        o.nontrivial_if(m.iter().any(|v| *v != 0));
        o.class_if(exact_elimination, "also for elimination");
        let mt: Matrix33<T> = m3_to(&mm);
        ensure!(mt.determinant().d() == 0.0, "determinant of {:?} is {:e}", m, mt.determinant().d());
        ensure!(mt.inverse().is_none(), "singular {:?} has inverse {:?}", m, mt.inverse());
        if exact_elimination {
            ensure!(mt.gj_inverse().is_none(), "singular {:?} has gj_inverse {:?}", m, mt.gj_inverse());
        }
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AlgCase {
    single: bool,
    a: A9,
    b: A9,
    v: [f64; 3],
    s: f64,
}

fn alg_check(c: &AlgCase, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &AlgCase, o: &mut Obs) -> CheckResult {
        let (a, b) = (m3_of9::<T>(&c.a), m3_of9::<T>(&c.b));
        let (at, bt): (Matrix33<T>, Matrix33<T>) = (m3_to(&a), m3_to(&b));
        let v = rnd3::<T>(c.v);
        let s = rnd::<T>(c.s);
        o.nontrivial_if(a != ID3 && b != ID3);
        let e = T::EPS;
        let abs = |m: &M3| {
            let mut r = *m;
            r.iter_mut().for_each(|x| x.iter_mut().for_each(|y| *y = y.abs()));
            r
        };
        let p = m3_from(&(at * bt));
        let (w, sc) = (m3_mul(&a, &b), m3_mul(&abs(&a), &abs(&b)));
        for i in 0..3 {
            for j in 0..3 {
                ensure!(close(p[i][j], w[i][j], 4.0 * e * sc[i][j]), "product [{}][{}] of {:?} {:?} is {:e}, expected {:e}", i, j, a, b, p[i][j], w[i][j]);
            }
        }
        let t = at.transposed();
        for i in 0..3 {
            for j in 0..3 {
                ensure!(t[i][j].d() == a[j][i], "transpose [{}][{}]", i, j);
                ensure!(at[i][j].d() == a[i][j], "index [{}][{}]", i, j);
                let mut w = at;
                w[i][j] = T::of(77.0);
                for k in 0..9 {
                    let want = if k == i * 3 + j { 77.0 } else { at.x[k].d() };
                    ensure!(w.x[k].d() == want, "writing [{}][{}] changed element {}", i, j, k);
                }
            }
        }
        let d = at.determinant().d();
        // permanent of the absolute values bounds the rounding error
        let aa = abs(&a);
        let perm = aa[0][0] * (aa[1][1] * aa[2][2] + aa[1][2] * aa[2][1])
            + aa[0][1] * (aa[1][0] * aa[2][2] + aa[1][2] * aa[2][0])
            + aa[0][2] * (aa[1][0] * aa[2][1] + aa[1][1] * aa[2][0]);
        ensure!(close(d, m3_det(&a), 8.0 * e * perm + 1e-40), "determinant of {:?} is {:e}, expected {:e}", a, d, m3_det(&a));
        // scalar operators
        let (add, sub, mul, div, neg) = (m3_from(&(at + T::of(s))), m3_from(&(at - T::of(s))), m3_from(&(at * T::of(s))), m3_from(&(at / T::of(s))), m3_from(&(-at)));
        for i in 0..3 {
            for j in 0..3 {
                let x = a[i][j];
                let chk = |got: f64, want: f64, what: &str| -> CheckResult {
                    ensure!(close(got, want, 2.0 * e * want.abs() + 1e-44), "matrix {} {}: [{}][{}] of {:?} is {:e}, expected {:e}", what, s, i, j, a, got, want);
                    Ok(())
                };
                chk(add[i][j], x + s, "+")?;
                chk(sub[i][j], x - s, "-")?;
                chk(mul[i][j], x * s, "*")?;
                if s != 0.0 {
                    chk(div[i][j], x / s, "/")?;
                }
                ensure!(neg[i][j] == -x, "negation");
            }
        }
        // vectors
        let (w, sc) = (m3_vec(&a, v), m3_abs_vec(&a, v));
        let gx = xyz_d(at * xyz_of::<T>(v));
        let gr = rgb_d(at * rgb_of::<T>(v));
        for i in 0..3 {
            ensure!(close(gx[i], w[i], 4.0 * e * sc[i]), "matrix * XYZ {:?} {:?}: component {} is {:e}, expected {:e}", a, v, i, gx[i], w[i]);
            ensure!(close(gr[i], w[i], 4.0 * e * sc[i]), "matrix * RGB {:?} {:?}: component {} is {:e}, expected {:e}", a, v, i, gr[i], w[i]);
        }
        let id = Matrix33::<T>::make_identity();
        ensure!(m3_from(&id) == ID3, "identity");
        ensure!(m3_from(&(id * at)) == a && m3_from(&(at * id)) == a, "identity is not neutral");
        ensure!(at == at.transposed().transposed() && (at == bt) == (a == b), "equality");
        Ok(())
    }
    // narrowing keeps every element
    let m64 = M3f64::new(c.a);
    let m32 = M3f32::from(m64);
    for i in 0..9 {
        ensure!(m32.x[i] == c.a[i] as f32, "f64 -> f32 matrix element {}", i);
    }
    by_precision!(c.single, go, c, o)
}

fn oob_index(c: &(u8, usize), o: &mut Obs) -> CheckResult {
    o.nontrivial();
    let i = c.1;
    let bad = i > 2;
    match c.0 {
        0 => ensure!(panics(|| M3f32::make_identity()[i][0]) == bad, "Matrix33[{}]", i),
        1 => ensure!(panics(|| M3f64::make_identity()[0][i]) == bad, "Matrix33[0][{}]", i),
        2 => ensure!(panics(|| RGBf32::new(0.0, 1.0, 2.0)[i]) == bad, "RGBf[{}]", i),
        3 => ensure!(panics(|| XYZf64::new(0.0, 1.0, 2.0)[i]) == bad, "XYZ[{}]", i),
        4 => {
            let mut v = RGBf64::new(0.0, 1.0, 2.0);
            ensure!(panics(|| v[i] = 5.0) == bad, "RGBf[{}] = ", i);
        }
        5 => {
            let mut v = XYZf32::new(0.0, 1.0, 2.0);
            ensure!(panics(|| v[i] = 5.0) == bad, "XYZ[{}] = ", i);
        }
        _ => {
            let mut v = M3f64::make_identity();
            ensure!(panics(|| v[i][1] = 5.0) == bad, "Matrix33[{}] = ", i);
        }
    }
    Ok(())
}

pub fn c10() -> Property {
    Property {
        id: "C10",
        rule: "inverses: matrices dense / diagonally dominant / colour / small integer, overlaid with affine, transposed-affine, triangular, permuted-diagonal, zero-diagonal, permuted-row, vanishing-pivot and translation structure, optionally scaled by up to 10^+-40 (elimination also by 2^+-800); blocks: a 2x2 block scaled by up to 2^+-350 next to a one; non-trivial when the condition number is below 300 (single) or 1e5 (double). singular: small integer matrices with a zero row/column, proportional rows, or a linear combination; non-trivial when not the zero matrix. algebra: two matrices, a vector and a scalar; non-trivial when neither matrix is the identity.",
        assumptions: &[
            "inversion error bound 16 eps cond + 4 eps cond^2 (cofactor inversion is not backward stable)",
            "Gauss-Jordan is only required to detect singularity where its elimination is exact (zero rows/columns, rows proportional by powers of two)",
        ],
        subs: vec![
            sub(
                "inverses",
                1_000_000,
                30,
                || {
                    (any::<bool>(), any_matrix(), prop_oneof![2 => Just(0.0), 1 => -1.0f64..1.0, 1 => select(vec![-1.0, 1.0])]).prop_map(|(single, m, exp)| InvCase { single, m, exp })
                },
                inv_check,
            ),
            sub(
                "blocks",
                300_000,
                30,
                || {
                    (any::<bool>(), any_matrix(), prop_oneof![1 => Just(0.0), 2 => -1.0f64..1.0, 1 => select(vec![-1.0, 1.0])]).prop_map(|(single, m, exp)| InvCase { single, m, exp })
                },
                block_check,
            ),
            sub(
                "singular",
                400_000,
                30,
                || {
                    (any::<bool>(), proptest::array::uniform9(-6i32..=6), 0u8..6, 0usize..6, -3i32..=3).prop_map(|(single, mut m, kind, which, k)| {
                        if which == 1 && kind == 3 {
                            // keep some in affine form
                            m[8] = 1;
                        }
                        SingCase { single, m, kind, which, k }
                    })
                },
                sing_check,
            ),
            sub(
                "singular affine",
                100_000,
                30,
                || {
                    (any::<bool>(), -6i32..=6, -6i32..=6, -3i32..=3, -6i32..=6, -6i32..=6).prop_map(|(single, a, b, k, t, u)| AffSing { single, m: [a, b, 0, k * a, k * b, 0, t, u, 1] })
                },
                aff_check,
            ),
            sub(
                "algebra",
                400_000,
                30,
                || {
                    // no magnitude is special: three factors of 1e9 stay well inside single precision
                    let size = || prop_oneof![3 => Just(1.0), 1 => logu(-9.0, 9.0)];
                    (any::<bool>(), any_matrix(), any_matrix(), triple(scalar(3.0)), prop_oneof![scalar(3.0), select(POOL)], size(), size(), size()).prop_map(|(single, mut a, mut b, mut v, s, ka, kb, kv)| {
                        a.iter_mut().for_each(|x| *x *= ka);
                        b.iter_mut().for_each(|x| *x *= kb);
                        v.iter_mut().for_each(|x| *x *= kv);
                        AlgCase { single, a, b, v, s }
                    })
                },
                alg_check,
            ),
            enumerate("indices", |_| 7 * 40, |i| ((i % 7) as u8, if i / 7 < 38 { (i / 7) as usize } else { usize::MAX / 4 + i as usize }), oob_index),
        ],
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AffSing {
    single: bool,
    m: [i32; 9],
}

fn aff_check(c: &AffSing, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &AffSing, o: &mut Obs) -> CheckResult {
        o.nontrivial();
        let a: Vec<f64> = c.m.iter().map(|v| *v as f64).collect();
        let mm: M3 = [[a[0], a[1], a[2]], [a[3], a[4], a[5]], [a[6], a[7], a[8]]];
        let mt: Matrix33<T> = m3_to(&mm);
        ensure!(mt.inverse().is_none(), "singular affine {:?} has inverse {:?}", c.m, mt.inverse());
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct VecCase {
    single: bool,
    a: [f64; 3],
    b: [f64; 3],
    s: f64,
    lo: f64,
    hi: f64,
}

fn vchan() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => scalar(6.0),
        1 => (sign(), logu(-18.0, 18.0)).prop_map(|(s, x)| s * x),
        1 => (-8i32..=8).prop_map(|k| k as f64),
    ]
    .boxed()
}

/// got equals the scalar result up to two ulps (NaN equal to NaN)
fn same<T: Fp>(got: T, want: T) -> bool {
    if want.is_nan() {
        return got.is_nan();
    }
    close(got.d(), want.d(), 2.0 * T::EPS * want.d().abs() + if T::SINGLE { 1e-44 } else { 0.0 })
}

fn vec_check(c: &VecCase, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &VecCase, o: &mut Obs) -> CheckResult {
        let t3 = |x: [f64; 3]| [T::of(x[0]), T::of(x[1]), T::of(x[2])];
        let (a, b, s) = (t3(c.a), t3(c.b), T::of(c.s));
        o.nontrivial_if(a[0] != a[1] && a[1] != a[2] && a[0] != a[2]);
        o.class_if(b.iter().any(|v| v.is_zero()) || s.is_zero(), "division by zero");
        let (ra, rb) = (RGBf::new(a[0], a[1], a[2]), RGBf::new(b[0], b[1], b[2]));
        let (xa, xb) = (XYZ::new(a[0], a[1], a[2]), XYZ::new(b[0], b[1], b[2]));
        ensure!([ra.r, ra.g, ra.b] == a && [xa.x, xa.y, xa.z] == a, "constructor order");
        let fr = rgb::rgbf(a[0], a[1], a[2]);
        let fx = xyz::xyz(a[0], a[1], a[2]);
        ensure!([fr.r, fr.g, fr.b] == a && [fx.x, fx.y, fx.z] == a, "constructor function order");
        let mut ras = ra;
        ras += rb;
        let mut xas = xa;
        xas += xb;
        let rgb_ops: Vec<(&str, RGBf<T>, [T; 3])> = vec![
            ("a + b", ra + rb, [a[0] + b[0], a[1] + b[1], a[2] + b[2]]),
            ("a += b", ras, [a[0] + b[0], a[1] + b[1], a[2] + b[2]]),
            ("a - b", ra - rb, [a[0] - b[0], a[1] - b[1], a[2] - b[2]]),
            ("a * b", ra * rb, [a[0] * b[0], a[1] * b[1], a[2] * b[2]]),
            ("a / b", ra / rb, [a[0] / b[0], a[1] / b[1], a[2] / b[2]]),
            ("-a", -ra, [-a[0], -a[1], -a[2]]),
            ("a + s", ra + s, [a[0] + s, a[1] + s, a[2] + s]),
            ("a - s", ra - s, [a[0] - s, a[1] - s, a[2] - s]),
            ("a * s", ra * s, [a[0] * s, a[1] * s, a[2] * s]),
            ("a / s", ra / s, [a[0] / s, a[1] / s, a[2] / s]),
            ("abs", ra.abs(), [a[0].abs(), a[1].abs(), a[2].abs()]),
            ("from_scalar", RGBf::from_scalar(s), [s, s, s]),
        ];
        for (w, g, want) in rgb_ops {
            ensure!(
                same(g.r, want[0]) && same(g.g, want[1]) && same(g.b, want[2]),
                "RGB {} with a={:?} b={:?} s={:?}: {:?}, expected {:?}",
                w, a, b, s, g, want
            );
        }
        let xyz_ops: Vec<(&str, XYZ<T>, [T; 3])> = vec![
            ("a + b", xa + xb, [a[0] + b[0], a[1] + b[1], a[2] + b[2]]),
            ("a += b", xas, [a[0] + b[0], a[1] + b[1], a[2] + b[2]]),
            ("a - b", xa - xb, [a[0] - b[0], a[1] - b[1], a[2] - b[2]]),
            ("a * b", xa * xb, [a[0] * b[0], a[1] * b[1], a[2] * b[2]]),
            ("a / b", xa / xb, [a[0] / b[0], a[1] / b[1], a[2] / b[2]]),
            ("-a", -xa, [-a[0], -a[1], -a[2]]),
            ("a + s", xa + s, [a[0] + s, a[1] + s, a[2] + s]),
            ("a - s", xa - s, [a[0] - s, a[1] - s, a[2] - s]),
            ("a * s", xa * s, [a[0] * s, a[1] * s, a[2] * s]),
            ("a / s", xa / s, [a[0] / s, a[1] / s, a[2] / s]),
            ("abs", xa.abs(), [a[0].abs(), a[1].abs(), a[2].abs()]),
            ("from_scalar", XYZ::from_scalar(s), [s, s, s]),
        ];
        for (w, g, want) in xyz_ops {
            ensure!(
                same(g.x, want[0]) && same(g.y, want[1]) && same(g.z, want[2]),
                "XYZ {} with a={:?} b={:?} s={:?}: {:?}, expected {:?}",
                w, a, b, s, g, want
            );
        }
        // power: compare against the scalar function
        let pa = ra.abs();
        let e = T::of(c.s.clamp(-3.0, 3.0));
        let g = pa.powf(e);
        for (i, (g, x)) in [(g.r, pa.r), (g.g, pa.g), (g.b, pa.b)].iter().enumerate() {
            let w = x.powf(e);
            ensure!(close(g.d(), w.d(), 64.0 * T::EPS * w.d().abs()), "powf({:?}) component {} of {:?} is {:?}, expected {:?}", e, i, pa, g, w);
        }
        let neg_one = ra.powf(T::of(2.0));
        for (i, (g, x)) in [(neg_one.r, a[0]), (neg_one.g, a[1]), (neg_one.b, a[2])].iter().enumerate() {
            ensure!(close(g.d(), x.powf(T::of(2.0)).d(), 64.0 * T::EPS * g.d().abs()), "powf(2) component {} of {:?} is {:?}", i, a, g);
        }
        // clamp, max, normalise
        let (lo, hi) = if c.lo <= c.hi { (T::of(c.lo), T::of(c.hi)) } else { (T::of(c.hi), T::of(c.lo)) };
        let cl = rgb::clamprgb(ra, lo, hi);
        for (i, g) in [cl.r, cl.g, cl.b].iter().enumerate() {
            let w = if a[i] < lo {
                lo
            } else if a[i] > hi {
                hi
            } else {
                a[i]
            };
            ensure!(*g == w, "clamp of {:?} to [{:?}, {:?}] component {} is {:?}", a, lo, hi, i, g);
            ensure!(math::clamp(a[i], lo, hi) == w, "math::clamp({:?}, {:?}, {:?})", a[i], lo, hi);
        }
        let mx = a.iter().cloned().fold(a[0], |m, v| if v > m { v } else { m });
        ensure!(rgb::hmax(ra) == mx, "hmax of {:?} is {:?}", a, rgb::hmax(ra));
        if !mx.is_zero() {
            let n = rgb::normalize(ra);
            for (i, g) in [n.r, n.g, n.b].iter().enumerate() {
                let w = a[i] / mx;
                ensure!(close(g.d(), w.d(), 4.0 * T::EPS * w.d().abs() + if T::SINGLE { 1e-37 } else { 0.0 }), "normalize {:?} component {} is {:?}", a, i, g);
            }
        }
        // identities and indexing
        ensure!(RGBf::<T>::zero().is_zero() && XYZ::<T>::zero().is_zero(), "zero");
        ensure!(ra.is_zero() == a.iter().all(|v| v.is_zero()), "is_zero of {:?}", a);
        ensure!(xa.is_zero() == a.iter().all(|v| v.is_zero()), "is_zero of {:?}", a);
        ensure!(rgb_d(RGBf::<T>::one()) == [1.0; 3] && xyz_d(XYZ::<T>::one()) == [1.0; 3], "one");
        let (mn, mxv) = (-T::MAX, T::MAX);
        ensure!(rgb_d(RGBf::<T>::min_value()) == [mn; 3] && rgb_d(RGBf::<T>::max_value()) == [mxv; 3], "RGB bounds");
        ensure!(xyz_d(XYZ::<T>::min_value()) == [mn; 3] && xyz_d(XYZ::<T>::max_value()) == [mxv; 3], "XYZ bounds");
        for i in 0..3 {
            ensure!(ra[i] == a[i] && xa[i] == a[i], "index {}", i);
            let (mut r, mut x) = (ra, xa);
            r[i] = s;
            x[i] = s;
            let mut want = a;
            want[i] = s;
            ensure!([r.r, r.g, r.b] == want && [x.x, x.y, x.z] == want, "write at index {}", i);
        }
        ensure!((ra == rb) == (a == b) && (xa == xb) == (a == b), "equality of {:?} {:?}", a, b);
        ensure!(ra.partial_cmp(&rb) == a.partial_cmp(&b) && xa.partial_cmp(&xb) == a.partial_cmp(&b), "order of {:?} {:?}", a, b);
        Ok(())
    }
    // scalar on the left is offered for f32 only
    let (a, s) = ([c.a[0] as f32, c.a[1] as f32, c.a[2] as f32], c.s as f32);
    let r = rgbf32(a[0], a[1], a[2]);
    for (w, g, want) in [
        ("s * a", s * r, [s * a[0], s * a[1], s * a[2]]),
        ("s + a", s + r, [s + a[0], s + a[1], s + a[2]]),
        ("s - a", s - r, [s - a[0], s - a[1], s - a[2]]),
        ("s / a", s / r, [s / a[0], s / a[1], s / a[2]]),
    ] {
        ensure!(same(g.r, want[0]) && same(g.g, want[1]) && same(g.b, want[2]), "{} with a={:?} s={}: {:?}, expected {:?}", w, a, s, g, want);
    }
    let x = XYZf32::from(XYZf64::new(c.a[0], c.a[1], c.a[2]));
    ensure!([x.x, x.y, x.z] == a, "XYZ f64 -> f32 of {:?} is {:?}", c.a, x);
    // scalar helpers
    let (p, q, t) = (c.a[0] as f32, c.a[1] as f32, c.s.clamp(-1.0, 2.0) as f32);
    let want = (1.0 - t as f64) * p as f64 + t as f64 * q as f64;
    let tol = 8.0 * f32::EPSILON as f64 * ((1.0 - t as f64) * p as f64).abs().max((t as f64 * q as f64).abs()).max((t as f64 * p as f64).abs());
    ensure!(close(math::lerp(p, q, t) as f64, want, tol), "lerp({}, {}, {}) is {}", p, q, t, math::lerp(p, q, t));
    by_precision!(c.single, go, c, o)
}

/// The arithmetic operators at any magnitude, subnormal and near overflow
fn wide_check(c: &VecCase, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &VecCase, o: &mut Obs) -> CheckResult {
        // the generated decades are those of double precision
        let fit = |v: f64| if T::SINGLE { T::of(v.signum() * v.abs().powf(0.125)) } else { T::of(v) };
        let t3 = |x: [f64; 3]| [fit(x[0]), fit(x[1]), fit(x[2])];
        let (a, b, s) = (t3(c.a), t3(c.b), fit(c.s));
        let tiny = T::TINY;
        o.nontrivial_if(a[0] != a[1] && a[1] != a[2] && a[0] != a[2]);
        let sub = |v: &T| v.d() != 0.0 && v.d().abs() < tiny;
        o.class_if(a.iter().chain(b.iter()).any(sub) || sub(&s), "subnormal");
        let ok = |g: T, w: T| g.d() == w.d() || g.is_nan() && w.is_nan() || close(g.d(), w.d(), 2.0 * T::EPS * w.d().abs().max(tiny));
        let (ra, rb) = (RGBf::new(a[0], a[1], a[2]), RGBf::new(b[0], b[1], b[2]));
        let (xa, xb) = (XYZ::new(a[0], a[1], a[2]), XYZ::new(b[0], b[1], b[2]));
        // what a colour is made of is what it holds
        ensure!((ra.r, ra.g, ra.b) == (a[0], a[1], a[2]) && (xa.x, xa.y, xa.z) == (a[0], a[1], a[2]), "{:?} makes {:?} and {:?}", a, ra, xa);
        let f = [a[0].d() as f32, a[1].d() as f32, a[2].d() as f32, s.d() as f32];
        let p = rgbaf32(f[0], f[1], f[2], f[3]);
        ensure!([p.r, p.g, p.b, p.a] == f, "{:?} makes {:?}", f, p);
        let p = rgbf32(f[0], f[1], f[2]);
        ensure!([p.r, p.g, p.b] == f[..3], "{:?} makes {:?}", f, p);
        let each = |f: &dyn Fn(T, T) -> T| [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2])];
        let one = |f: &dyn Fn(T, T) -> T| [f(a[0], s), f(a[1], s), f(a[2], s)];
        let ops: Vec<(&str, RGBf<T>, XYZ<T>, [T; 3])> = vec![
            ("a + b", ra + rb, xa + xb, each(&|p, q| p + q)),
            ("a - b", ra - rb, xa - xb, each(&|p, q| p - q)),
            ("a * b", ra * rb, xa * xb, each(&|p, q| p * q)),
            ("a / b", ra / rb, xa / xb, each(&|p, q| p / q)),
            ("a + s", ra + s, xa + s, one(&|p, q| p + q)),
            ("a - s", ra - s, xa - s, one(&|p, q| p - q)),
            ("a * s", ra * s, xa * s, one(&|p, q| p * q)),
            ("a / s", ra / s, xa / s, one(&|p, q| p / q)),
        ];
        for (n, r, x, w) in ops {
            ensure!(ok(r.r, w[0]) && ok(r.g, w[1]) && ok(r.b, w[2]), "RGB {} with a={:?} b={:?} s={:?}: {:?}, expected {:?}", n, a, b, s, r, w);
            ensure!(ok(x.x, w[0]) && ok(x.y, w[1]) && ok(x.z, w[2]), "XYZ {} with a={:?} b={:?} s={:?}: {:?}, expected {:?}", n, a, b, s, x, w);
        }
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

/// The free scalar functions against the standard library
fn scalar_check(c: &VecCase, o: &mut Obs) -> CheckResult {
    fn go<T: Fp>(c: &VecCase, o: &mut Obs) -> CheckResult {
        let (x, y) = (T::of(c.a[0]), T::of(c.a[1]));
        o.nontrivial_if(x != y);
        let u = T::of(c.a[0].clamp(-1.0, 1.0));
        let e = T::of(c.a[0].clamp(-50.0, 50.0));
        let p = T::of(c.a[1].clamp(-4.0, 4.0));
        let i = (c.s.clamp(-6.0, 6.0)) as i32;
        let f: Vec<(&str, T, T)> = vec![
            ("sqrt", math::sqrt(x), x.sqrt()),
            ("sqr", math::sqr(x), x * x),
            ("abs", math::abs(x), x.abs()),
            ("sin", math::sin(x), x.sin()),
            ("cos", math::cos(x), x.cos()),
            ("tan", math::tan(x), x.tan()),
            ("asin", math::asin(u), u.asin()),
            ("acos", math::acos(u), u.acos()),
            ("atan2", math::atan2(x, y), x.atan2(y)),
            ("exp", math::exp(e), e.exp()),
            ("pow", math::pow(x.abs(), p), x.abs().powf(p)),
            ("hypot", math::hypot(x, y), x.hypot(y)),
            ("powi", math::powi(x, i), x.powi(i)),
        ];
        for (n, g, w) in f {
            let ok = w.is_nan() && g.is_nan() || close(g.d(), w.d(), 64.0 * T::EPS * w.d().abs() + if T::SINGLE { 1e-37 } else { 1e-300 });
            ensure!(ok, "{}({:?}, {:?}, {}) is {:?}, expected {:?}", n, x, y, i, g, w);
        }
        Ok(())
    }
    by_precision!(c.single, go, c, o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SumCase {
    v: Vec<[f64; 3]>,
}

fn sum_check(c: &SumCase, o: &mut Obs) -> CheckResult {
    o.nontrivial_if(c.v.len() > 1);
    o.class_if(c.v.is_empty(), "empty");
    let n = c.v.len() as f64 + 1.0;
    let s32: RGBf32 = c.v.iter().map(|x| rgb_of::<f32>(*x)).sum();
    let s64: RGBf64 = c.v.iter().map(|x| rgb_of::<f64>(*x)).sum();
    let x32: XYZf32 = c.v.iter().map(|x| xyz_of::<f32>(*x)).sum();
    for i in 0..3 {
        let (w32, a32) = c.v.iter().fold((0.0, 0.0), |s, x| (s.0 + rnd::<f32>(x[i]), s.1 + x[i].abs()));
        let w64 = c.v.iter().map(|x| x[i]).sum::<f64>();
        ensure!(close(s32[i] as f64, w32, f32::EPSILON as f64 * n * a32), "sum of {} RGBf32: component {} is {:e}, expected {:e}", c.v.len(), i, s32[i], w32);
        ensure!(close(x32[i] as f64, w32, f32::EPSILON as f64 * n * a32), "sum of {} XYZf32: component {} is {:e}, expected {:e}", c.v.len(), i, x32[i], w32);
        ensure!(close(s64[i], w64, 2.0 * f64::EPSILON * n * a32), "sum of {} RGBf64: component {} is {:e}, expected {:e}", c.v.len(), i, s64[i], w64);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ApproxCase {
    a: [f64; 3],
    /// per component: offset in ulps and absolute
    ulps: [i64; 3],
    off: [f64; 3],
    margin_ulps: i64,
    margin_eps: f64,
}

fn approx_check(c: &ApproxCase, o: &mut Obs) -> CheckResult {
    let mut want64 = true;
    let mut want32 = true;
    let mut b64 = [0.0f64; 3];
    let mut b32 = [0.0f32; 3];
    let a32 = [c.a[0] as f32, c.a[1] as f32, c.a[2] as f32];
    for i in 0..3 {
        b64[i] = f64::from_bits((c.a[i].to_bits() as i64).wrapping_add(c.ulps[i]) as u64) + c.off[i];
        b32[i] = f32::from_bits((a32[i].to_bits() as i32).wrapping_add(c.ulps[i] as i32) as u32) + c.off[i] as f32;
        want64 &= c.a[i].approx_eq(b64[i], (c.margin_eps, c.margin_ulps));
        want32 &= a32[i].approx_eq(b32[i], (c.margin_eps as f32, c.margin_ulps as i32));
    }
    o.nontrivial();
    o.class_if(want64, "equal");
    o.class_if(!want64, "different");
    let m64 = (c.margin_eps, c.margin_ulps);
    let m32 = (c.margin_eps as f32, c.margin_ulps as i32);
    ensure!(rgb_of::<f64>(c.a).approx_eq(rgb_of::<f64>(b64), m64) == want64, "RGBf64 approx_eq {:?} {:?} is {}", c.a, b64, !want64);
    ensure!(xyz_of::<f64>(c.a).approx_eq(xyz_of::<f64>(b64), m64) == want64, "XYZf64 approx_eq {:?} {:?} is {}", c.a, b64, !want64);
    let (r, s) = (rgbf32(a32[0], a32[1], a32[2]), rgbf32(b32[0], b32[1], b32[2]));
    ensure!(r.approx_eq(s, m32) == want32 && r.approx_ne(s, m32) != want32, "RGBf32 approx_eq {:?} {:?} is {}", a32, b32, !want32);
    let (r, s) = (XYZf32::new(a32[0], a32[1], a32[2]), XYZf32::new(b32[0], b32[1], b32[2]));
    ensure!(r.approx_eq(s, m32) == want32, "XYZf32 approx_eq {:?} {:?} is {}", a32, b32, !want32);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CastCase {
    len: usize,
    offset: usize,
    start: u8,
}

pub fn cast_check(c: &CastCase, o: &mut Obs) -> CheckResult {
    let total = c.len + c.offset;
    let f: Vec<f32> = (0..total).map(|i| i as f32 * 0.25 + c.start as f32).collect();
    let d: Vec<f64> = (0..total).map(|i| i as f64 * 0.125 - c.start as f64).collect();
    let u: Vec<u8> = (0..total).map(|i| (i as u8).wrapping_mul(7).wrapping_add(c.start)).collect();
    let (f, d, u) = (&f[c.offset..], &d[c.offset..], &u[c.offset..]);
    o.nontrivial_if(c.len > 0);
    o.class_if(c.len % 3 != 0, "rejected");
    if c.len % 3 != 0 {
        ensure!(panics(|| RGBf32::cast_slice(f).len()), "RGBf32::cast_slice accepted length {}", c.len);
        ensure!(panics(|| RGBf64::cast_slice(d).len()), "RGBf64::cast_slice accepted length {}", c.len);
        ensure!(panics(|| RGBu8::cast_slice(u).len()), "RGBu8::cast_slice accepted length {}", c.len);
        return Ok(());
    }
    let (pf, pd, pu) = (RGBf32::cast_slice(f), RGBf64::cast_slice(d), RGBu8::cast_slice(u));
    ensure!(pf.len() == c.len / 3 && pd.len() == c.len / 3 && pu.len() == c.len / 3, "cast_slice of {} values has {} pixels", c.len, pf.len());
    for i in 0..c.len / 3 {
        ensure!([pf[i].r, pf[i].g, pf[i].b] == f[3 * i..3 * i + 3], "RGBf32 pixel {} of {}", i, c.len / 3);
        ensure!([pd[i].r, pd[i].g, pd[i].b] == d[3 * i..3 * i + 3], "RGBf64 pixel {} of {}", i, c.len / 3);
        ensure!([pu[i].r, pu[i].g, pu[i].b] == u[3 * i..3 * i + 3], "RGBu8 pixel {} of {}", i, c.len / 3);
    }
    Ok(())
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        rule: "operators: two triples, a scalar and a clamp interval (any sign, 1e-18..1e18, zero divisors) x precision, every operator compared with the scalar operation, the arithmetic ones at any magnitude including subnormal numbers; non-trivial when the three components differ. sums: 0..400 triples; non-trivial when more than one. approx: triples perturbed by ulps and absolute offsets against random margins. casts: every length 0..300 and generated ones up to 4097 at every offset 0..2. indices: exhaustive.",
        assumptions: &["two ulps are allowed per operator so that an algebraically equal formulation stays admissible"],
        subs: vec![
            sub(
                "operators",
                500_000,
                30,
                || {
                    (any::<bool>(), triple(vchan()), prop_oneof![4 => triple(vchan()).prop_map(Some), 1 => Just(None)], vchan(), scalar(1.0), scalar(1.0)).prop_map(
                        |(single, a, b, s, lo, hi)| VecCase {
                            single,
                            a,
                            b: b.unwrap_or(a),
                            s,
                            lo,
                            hi,
                        },
                    )
                },
                vec_check,
            ),
            sub(
                "any magnitude",
                200_000,
                30,
                || {
                    // 1e-320 .. 1e307; related magnitudes, so that quotients stay finite
                    let v = || (sign(), -320.0f64..307.0, 0u8..4).prop_map(|(s, e, k)| s * 10f64.powf(if k == 0 { -308.0 - (e + 320.0) / 52.0 } else { e }));
                    (any::<bool>(), triple(v().boxed()), triple(v().boxed()), v(), 0u8..3, proptest::array::uniform3(logu(-1.0, 1.0))).prop_map(|(single, a, mut b, mut s, near, k)| {
                        if near > 0 {
                            b = [a[0] * k[0], a[1] * k[1], a[2] * k[2]];
                        }
                        if near == 2 {
                            s = a[1] * k[2];
                        }
                        VecCase { single, a, b, s, lo: 0.0, hi: 1.0 }
                    })
                },
                wide_check,
            ),
            sub(
                "scalar functions",
                200_000,
                30,
                || {
                    (any::<bool>(), triple(vchan()), vchan()).prop_map(|(single, a, s)| VecCase {
                        single,
                        a,
                        b: a,
                        s,
                        lo: 0.0,
                        hi: 1.0,
                    })
                },
                scalar_check,
            ),
            sub(
                "sums",
                40_000,
                20,
                || len_upto(400).prop_flat_map(|n| proptest::collection::vec(triple(scalar(4.0)), n)).prop_map(|v| SumCase { v }),
                sum_check,
            ),
            sub(
                "approx",
                400_000,
                30,
                || {
                    (
                        triple(scalar(4.0)),
                        proptest::array::uniform3(prop_oneof![3 => Just(0i64), 2 => -8i64..=8]),
                        proptest::array::uniform3(prop_oneof![3 => Just(0.0), 2 => (sign(), logu(-8.0, -1.0)).prop_map(|(s, x)| s * x)]),
                        0i64..=8,
                        prop_oneof![Just(0.0), logu(-8.0, -1.0)],
                    )
                        .prop_map(|(a, ulps, off, margin_ulps, margin_eps)| ApproxCase {
                            a,
                            ulps,
                            off,
                            margin_ulps,
                            margin_eps,
                        })
                },
                approx_check,
            ),
            enumerate(
                "casts",
                |_| 901 * 3,
                |i| CastCase {
                    len: (i / 3) as usize,
                    offset: (i % 3) as usize,
                    start: (i * 31) as u8,
                },
                cast_check,
            ),
            sub(
                "long casts",
                4000,
                10,
                || (prop_oneof![80 => (0usize..=4200).boxed(), 1 => huge_len()], 0usize..8, any::<u8>()).prop_map(|(len, offset, start)| CastCase { len, offset, start }),
                cast_check,
            ),
            enumerate("indices", |_| 7 * 40, |i| ((i % 7) as u8, if i / 7 < 38 { (i / 7) as usize } else { usize::MAX / 4 + i as usize }), oob_index),
        ],
    }
}
