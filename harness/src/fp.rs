//! Precision-generic helpers
use colorspace::math::Real;

/// A float type under test: f32 or f64. References are always computed in
/// f64 on the value as rounded to the type.
pub trait Fp: Real + Send + Sync + 'static {
    const EPS: f64;
    const SINGLE: bool;
    const MAX: f64;
    /// smallest normal number
    const TINY: f64;
    fn of(x: f64) -> Self;
    fn d(self) -> f64;
}
impl Fp for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const SINGLE: bool = true;
    const MAX: f64 = f32::MAX as f64;
    const TINY: f64 = f32::MIN_POSITIVE as f64;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn d(self) -> f64 {
        self as f64
    }
}
impl Fp for f64 {
    const EPS: f64 = f64::EPSILON;
    const SINGLE: bool = false;
    const MAX: f64 = f64::MAX;
    const TINY: f64 = f64::MIN_POSITIVE;
    fn of(x: f64) -> f64 {
        x
    }
    fn d(self) -> f64 {
        self
    }
}

/// Value rounded to the type under test
pub fn rnd<T: Fp>(x: f64) -> f64 {
    T::of(x).d()
}

pub fn rnd3<T: Fp>(x: [f64; 3]) -> [f64; 3] {
    [rnd::<T>(x[0]), rnd::<T>(x[1]), rnd::<T>(x[2])]
}

/// |got - want| <= tol, NaN never close; equal infinities are close
pub fn close(got: f64, want: f64, tol: f64) -> bool {
    got == want || (got - want).abs() <= tol
}

pub fn close3(got: [f64; 3], want: [f64; 3], tol: f64) -> bool {
    (0..3).all(|i| close(got[i], want[i], tol))
}

/// Dispatch a generic check on a `single` flag
#[macro_export]
macro_rules! by_precision {
    ($single:expr, $f:ident, $($arg:expr),*) => {
        if $single { $f::<f32>($($arg),*) } else { $f::<f64>($($arg),*) }
    };
}

pub type M3 = [[f64; 3]; 3];

pub fn m3_mul(a: &M3, b: &M3) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j];
        }
    }
    r
}

pub fn m3_vec(a: &M3, v: [f64; 3]) -> [f64; 3] {
    [
        a[0][0] * v[0] + a[0][1] * v[1] + a[0][2] * v[2],
        a[1][0] * v[0] + a[1][1] * v[1] + a[1][2] * v[2],
        a[2][0] * v[0] + a[2][1] * v[1] + a[2][2] * v[2],
    ]
}

pub fn m3_abs_vec(a: &M3, v: [f64; 3]) -> [f64; 3] {
    let mut b = *a;
    for r in b.iter_mut() {
        for x in r.iter_mut() {
            *x = x.abs();
        }
    }
    m3_vec(&b, [v[0].abs(), v[1].abs(), v[2].abs()])
}

pub fn m3_det(a: &M3) -> f64 {
    // Sarrus
    a[0][0] * a[1][1] * a[2][2] + a[0][1] * a[1][2] * a[2][0] + a[0][2] * a[1][0] * a[2][1]
        - a[0][2] * a[1][1] * a[2][0]
        - a[0][1] * a[1][0] * a[2][2]
        - a[0][0] * a[1][2] * a[2][1]
}

/// Inverse through the adjugate with cyclic indices
pub fn m3_inv(a: &M3) -> M3 {
    let det = m3_det(a);
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            let (i1, i2) = ((i + 1) % 3, (i + 2) % 3);
            let (j1, j2) = ((j + 1) % 3, (j + 2) % 3);
            r[j][i] = (a[i1][j1] * a[i2][j2] - a[i1][j2] * a[i2][j1]) / det;
        }
    }
    r
}

pub fn m3_norm(a: &M3) -> f64 {
    a.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max)
}

pub fn m3_from<T: Fp>(m: &colorspace::Matrix33<T>) -> M3 {
    let x = &m.x;
    [
        [x[0].d(), x[1].d(), x[2].d()],
        [x[3].d(), x[4].d(), x[5].d()],
        [x[6].d(), x[7].d(), x[8].d()],
    ]
}

pub fn m3_to<T: Fp>(m: &M3) -> colorspace::Matrix33<T> {
    let mut x = [T::zero(); 9];
    for i in 0..3 {
        for j in 0..3 {
            x[i * 3 + j] = T::of(m[i][j]);
        }
    }
    colorspace::Matrix33::new(x)
}

pub const ID3: M3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
