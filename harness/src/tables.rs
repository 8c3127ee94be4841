//! Every bundled table of the crate, flattened to named rows of numbers.
use colorspace::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};

/// table name -> row key -> values
pub type Tables = BTreeMap<String, BTreeMap<String, Vec<f64>>>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cell {
    pub table: String,
    pub row: String,
}

fn spectrum(s: &VSPD) -> BTreeMap<String, Vec<f64>> {
    s.iter().map(|s| (format!("{:08.3}", s.nm), vec![s.nm, s.v])).collect()
}

fn fixed(s: &SPD) -> BTreeMap<String, Vec<f64>> {
    s.iter().enumerate().map(|(i, v)| (format!("{:02}", i), vec![*v as f64])).collect()
}

fn rgb(m: &HashMap<String, RGBf64>) -> BTreeMap<String, Vec<f64>> {
    m.iter().map(|(k, v)| (k.clone(), vec![v.r, v.g, v.b])).collect()
}

pub const RGB_SETS: &[&str] = &[
    "SRGB", "ITUR_BT709", "ALEXA_WIDE_GAMUT", "ACES_CC", "ACES_CCT", "ACES_CG", "ACES", "ACES_PROXY", "DCI_P3_P", "DCI_P3", "PRO_PHOTO_RGB", "BETA_RGB",
    "RED_COLOR", "RED_COLOR2", "RED_COLOR3", "RED_COLOR4", "DRAGON_COLOR", "DRAGON_COLOR2", "SHARP_RGB", "ITUR_BT2020", "ADOBE_RGB_1998",
];

pub fn rgb_set(name: &str) -> (&'static HashMap<String, RGBf64>, &'static HashMap<String, RGBf64>) {
    use colorchecker::*;
    match name {
        "SRGB" => (&SRGB_LINEAR, &SRGB_ENCODED),
        "ITUR_BT709" => (&ITUR_BT709_LINEAR, &ITUR_BT709_ENCODED),
        "ALEXA_WIDE_GAMUT" => (&ALEXA_WIDE_GAMUT_LINEAR, &ALEXA_WIDE_GAMUT_ENCODED),
        "ACES_CC" => (&ACES_CC_LINEAR, &ACES_CC_ENCODED),
        "ACES_CCT" => (&ACES_CCT_LINEAR, &ACES_CCT_ENCODED),
        "ACES_CG" => (&ACES_CG_LINEAR, &ACES_CG_ENCODED),
        "ACES" => (&ACES_LINEAR, &ACES_ENCODED),
        "ACES_PROXY" => (&ACES_PROXY_LINEAR, &ACES_PROXY_ENCODED),
        "DCI_P3_P" => (&DCI_P3_P_LINEAR, &DCI_P3_P_ENCODED),
        "DCI_P3" => (&DCI_P3_LINEAR, &DCI_P3_ENCODED),
        "PRO_PHOTO_RGB" => (&PRO_PHOTO_RGB_LINEAR, &PRO_PHOTO_RGB_ENCODED),
        "BETA_RGB" => (&BETA_RGB_LINEAR, &BETA_RGB_ENCODED),
        "RED_COLOR" => (&RED_COLOR_LINEAR, &RED_COLOR_ENCODED),
        "RED_COLOR2" => (&RED_COLOR2_LINEAR, &RED_COLOR2_ENCODED),
        "RED_COLOR3" => (&RED_COLOR3_LINEAR, &RED_COLOR3_ENCODED),
        "RED_COLOR4" => (&RED_COLOR4_LINEAR, &RED_COLOR4_ENCODED),
        "DRAGON_COLOR" => (&DRAGON_COLOR_LINEAR, &DRAGON_COLOR_ENCODED),
        "DRAGON_COLOR2" => (&DRAGON_COLOR2_LINEAR, &DRAGON_COLOR2_ENCODED),
        "SHARP_RGB" => (&SHARP_RGB_LINEAR, &SHARP_RGB_ENCODED),
        "ITUR_BT2020" => (&ITUR_BT2020_LINEAR, &ITUR_BT2020_ENCODED),
        "ADOBE_RGB_1998" => (&ADOBE_RGB_1998_LINEAR, &ADOBE_RGB_1998_ENCODED),
        _ => panic!("unknown set"),
    }
}

pub fn all() -> Tables {
    let mut t = Tables::new();
    let mut put = |n: &str, m: BTreeMap<String, Vec<f64>>| {
        t.insert(n.to_string(), m);
    };
    let c = &cmf::CIE_1931_2_DEGREE;
    put("cmf.x", spectrum(&c.x_bar));
    put("cmf.y", spectrum(&c.y_bar));
    put("cmf.z", spectrum(&c.z_bar));
    put("illuminant.D50", spectrum(&illuminant::spd::D50));
    put("illuminant.D55", spectrum(&illuminant::spd::D55));
    put("illuminant.D60", spectrum(&illuminant::spd::D60));
    put("illuminant.D65", spectrum(&illuminant::spd::D65));
    let xy = |v: XYY<f64>| vec![v.x, v.y, v.Y];
    use illuminant::xy as w;
    put(
        "white",
        [("D50", w::D50), ("D55", w::D55), ("D60", w::D60), ("D65", w::D65), ("DCI_P3", w::DCI_P3), ("ACES", w::ACES)]
            .iter()
            .map(|(n, v)| (n.to_string(), xy(*v)))
            .collect(),
    );
    put("weights.x", fixed(&spd::W_X));
    put("weights.y", fixed(&spd::W_Y));
    put("weights.z", fixed(&spd::W_Z));
    put(
        "weights.grid",
        [("grid".to_string(), vec![spd::SPD_SAMPLES as f64, spd::SPD_START as f64, spd::SPD_END as f64, spd::SPD_INTERVAL as f64])].into_iter().collect(),
    );
    for (k, v) in spd::BABELCOLOR.iter() {
        put(&format!("babelcolor.{}", k), fixed(v));
    }
    for (k, v) in colorchecker::SPECTRAL.iter() {
        put(&format!("checker.spectral.{}", k), spectrum(v));
    }
    put("checker.DARK_SKIN", spectrum(&colorchecker::DARK_SKIN));
    put("checker.names", colorchecker::NAMES.iter().enumerate().map(|(i, n)| (n.to_string(), vec![i as f64])).collect());
    put("checker.XYZ_D65", colorchecker::XYZ_D65.iter().map(|(k, v)| (k.clone(), vec![v.x, v.y, v.z])).collect());
    for n in RGB_SETS {
        let (l, e) = rgb_set(n);
        put(&format!("checker.{}.linear", n), rgb(l));
        put(&format!("checker.{}.encoded", n), rgb(e));
    }
    put("checker.ACES_FROM_SRGB", rgb(&colorchecker::ACES_FROM_SRGB));
    use uplifting as u;
    for (n, s) in [
        ("MY_RED", &*u::MY_RED),
        ("MY_GREEN", &*u::MY_GREEN),
        ("MY_BLUE", &*u::MY_BLUE),
        ("SMITS_WHITE", &*u::SMITS_WHITE),
        ("SMITS_CYAN", &*u::SMITS_CYAN),
        ("SMITS_MAGENTA", &*u::SMITS_MAGENTA),
        ("SMITS_YELLOW", &*u::SMITS_YELLOW),
        ("SMITS_RED", &*u::SMITS_RED),
        ("SMITS_GREEN", &*u::SMITS_GREEN),
        ("SMITS_BLUE", &*u::SMITS_BLUE),
    ] {
        put(&format!("uplift.{}", n), spectrum(s));
    }
    let (r, g, b) = u::my_basis();
    put("uplift.basis.r", spectrum(&r));
    put("uplift.basis.g", spectrum(&g));
    put("uplift.basis.b", spectrum(&b));
    t
}
