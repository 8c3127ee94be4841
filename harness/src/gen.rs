//! Shared strategies. All random choices are made here, inside proptest, so
//! that every failure shrinks and replays.
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;

pub const POOL: &[f64] = &[
    0.0, 1.0, 0.5, 0.25, 0.75, 0.1, 0.9, 0.18, 2.0, 1.5, 10.0, 100.0, 0.01, 1e-3, 1e-6, -1.0, -0.5, -0.1, -0.01, -1e-6, 1.0 / 3.0, 2.0 / 3.0,
    254.0 / 255.0, 1.0 / 255.0, 128.0 / 255.0, 0.999, 1.001,
];

/// log-uniform positive
pub fn logu(lo: f64, hi: f64) -> impl Strategy<Value = f64> + Clone {
    (lo..hi).prop_map(|e| 10f64.powf(e))
}

pub fn sign() -> impl Strategy<Value = f64> + Clone {
    prop_oneof![3 => Just(1.0), 1 => Just(-1.0)]
}

/// Values straddling any of the given thresholds: exact, a few ulps (of f64
/// and f32) away, or a log-uniform relative distance away
pub fn near(ts: &'static [f64]) -> BoxedStrategy<f64> {
    let ulp64 = (select(ts), -16i64..=16).prop_map(|(t, k)| if t == 0.0 { 0.0 } else { f64::from_bits((t.to_bits() as i64 + k) as u64) });
    let ulp32 = (select(ts), -16i32..=16).prop_map(|(t, k)| {
        let t = t as f32;
        if t == 0.0 {
            0.0
        } else {
            f32::from_bits((t.to_bits() as i32 + k) as u32) as f64
        }
    });
    let rel = (select(ts), sign(), logu(-9.0, -1.0)).prop_map(|(t, s, e)| t * (1.0 + s * e));
    prop_oneof![2 => ulp64, 2 => ulp32, 3 => rel, 1 => select(ts)].boxed()
}

/// A finite value of any size up to 10^hi
pub fn scalar(hi: f64) -> BoxedStrategy<f64> {
    prop_oneof![
        5 => -0.5f64..1.5,
        3 => (sign(), logu(-9.0, hi)).prop_map(|(s, x)| s * x),
        2 => select(POOL),
    ]
    .boxed()
}

/// Mostly inside the unit interval, never negative, at most 2
pub fn unit() -> BoxedStrategy<f64> {
    prop_oneof![
        8 => 0.0f64..=1.0,
        2 => logu(-8.0, 0.0),
        2 => (0u32..=255).prop_map(|k| k as f64 / 255.0),
        1 => (0u32..=65535).prop_map(|k| k as f64 / 65535.0),
        1 => Just(0.0),
        1 => Just(1.0),
    ]
    .boxed()
}

/// Turn a scalar strategy into triples, with structure: independent,
/// grey, two equal, single channel, one zero
pub fn triple(s: BoxedStrategy<f64>) -> BoxedStrategy<[f64; 3]> {
    let s1 = s.clone();
    prop_oneof![
        8 => (s.clone(), s.clone(), s.clone()).prop_map(|(a, b, c)| [a, b, c]),
        1 => s.clone().prop_map(|a| [a, a, a]),
        1 => (s.clone(), s.clone(), 0usize..3).prop_map(|(a, b, k)| {
            let mut r = [a; 3];
            r[k] = b;
            r
        }),
        1 => (s1, 0usize..3).prop_map(|(a, k)| {
            let mut r = [0.0; 3];
            r[k] = a;
            r
        }),
        1 => (s.clone(), s, 0usize..3).prop_map(|(a, b, k)| {
            let mut r = [a, a, a];
            r[(k + 1) % 3] = b;
            r[k] = 0.0;
            r
        }),
    ]
    .boxed()
}

/// Slice lengths: dense small ones and the neighbourhood of powers of two
/// and of multiples of the usual block sizes
pub fn len_upto(max: usize) -> BoxedStrategy<usize> {
    let special: Vec<usize> = [
        0usize, 1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 63, 64, 65, 95, 96, 100, 127, 128, 129, 191, 192, 255, 256, 257, 383, 384, 500, 511,
        512, 513, 767, 768, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097,
    ]
    .iter()
    .copied()
    .filter(|n| *n <= max)
    .collect();
    prop_oneof![
        6 => 0usize..=max.min(40),
        2 => 0usize..=max.min(300),
        2 => select(special),
        1 => 0usize..=max,
    ]
    .boxed()
}

/// Chromaticity of a plausible (or mildly imaginary) white
pub fn white_xy() -> BoxedStrategy<(f64, f64)> {
    prop_oneof![
        3 => (0.2f64..0.5, 0.2f64..0.5),
        2 => select(vec![
            (0.3127, 0.3290),
            (0.34570, 0.35850),
            (0.33243, 0.34744),
            (0.321626242047397, 0.337736995955436),
            (0.314, 0.351),
            (0.32168, 0.33767),
            (1.0 / 3.0, 1.0 / 3.0),
            (0.44757, 0.40745),
            (0.31006, 0.31616),
        ]),
    ]
    .boxed()
}

/// Lengths beyond every usual block size
pub fn huge_len() -> BoxedStrategy<usize> {
    prop_oneof![
        2 => select(vec![16384usize, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072, 131073, 262144, 262145, 524289, 1048577]),
        1 => 5_000usize..200_000,
    ]
    .boxed()
}
