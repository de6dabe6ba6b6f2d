//! Tabulated data (C22).  Tables are numbered; names are fixed here, not taken from the library.
use crate::{Out, R};
use colorspace::colorchecker as cc;
use colorspace::rgb::RGBf64;
use colorspace::vspd::{Interval, VSPD};
use colorspace::{cmf, illuminant, spd, uplifting};
use std::collections::HashMap;

pub const NAMES: [&str; 24] = [
    "dark_skin",
    "light_skin",
    "blue_sky",
    "foliage",
    "blue_flower",
    "bluish_green",
    "orange",
    "purplish_blue",
    "moderate_red",
    "purple",
    "yellow_green",
    "orange_yellow",
    "blue",
    "green",
    "red",
    "yellow",
    "magenta",
    "cyan",
    "white_95",
    "neutral_80",
    "neutral_65",
    "neutral_50",
    "neutral_35",
    "black_20",
];

/// start, end, interval (0 if varying), length, first and last sample, then all samples
pub fn dump(s: &VSPD) -> Vec<Out> {
    let mut o = vec![Out::F(s.start()), Out::F(s.end())];
    match s.interval() {
        Interval::Uniform(v) => o.push(Out::F(v)),
        Interval::Varying => o.push(Out::F(0.0)),
    }
    o.push(Out::I(s.len() as i64));
    for p in s.samples() {
        o.push(Out::F(p.nm));
        o.push(Out::F(p.v));
    }
    o
}
fn dump_map(m: &HashMap<String, RGBf64>) -> Vec<Out> {
    let mut o = vec![Out::I(m.len() as i64)];
    for n in NAMES {
        let c = m[n];
        o.extend([Out::F(c.r), Out::F(c.g), Out::F(c.b)]);
    }
    o
}
fn fast(s: &spd::SPD) -> Vec<Out> {
    s.values.iter().map(|v| Out::F(*v as f64)).collect()
}
fn name_code(s: &str) -> i64 {
    s.bytes().fold(7i64, |h, b| (h * 257 + b as i64) % 1_000_000_007)
}
pub fn spectrum(k: i64) -> &'static VSPD {
    match k {
        0 => &cmf::CIE_1931_2_DEGREE.x_bar,
        1 => &cmf::CIE_1931_2_DEGREE.y_bar,
        2 => &cmf::CIE_1931_2_DEGREE.z_bar,
        3 => &illuminant::spd::D50,
        4 => &illuminant::spd::D55,
        5 => &illuminant::spd::D60,
        6 => &illuminant::spd::D65,
        7 => &cc::DARK_SKIN,
        8 => &uplifting::MY_RED,
        9 => &uplifting::MY_GREEN,
        10 => &uplifting::MY_BLUE,
        11 => &uplifting::SMITS_WHITE,
        12 => &uplifting::SMITS_CYAN,
        13 => &uplifting::SMITS_MAGENTA,
        14 => &uplifting::SMITS_YELLOW,
        15 => &uplifting::SMITS_RED,
        16 => &uplifting::SMITS_GREEN,
        17 => &uplifting::SMITS_BLUE,
        _ => &cc::SPECTRAL[NAMES[(k - 100) as usize]],
    }
}
pub fn run(op: &str, i: &[i64], _x: &[f64]) -> R {
    match op {
        "tbl_spectrum" => Some(dump(spectrum(i[0]))),
        "tbl_basis" => {
            let b = uplifting::my_basis();
            Some(dump([&b.0, &b.1, &b.2][i[0] as usize]))
        }
        "tbl_fast" => Some(match i[0] {
            0 => fast(&spd::W_X),
            1 => fast(&spd::W_Y),
            2 => fast(&spd::W_Z),
            k => fast(&spd::BABELCOLOR[NAMES[(k - 3) as usize]]),
        }),
        "tbl_sizes" => Some(vec![
            Out::I(cc::NAMES.len() as i64),
            Out::I(cc::SPECTRAL.len() as i64),
            Out::I(cc::XYZ_D65.len() as i64),
            Out::I(spd::BABELCOLOR.len() as i64),
            Out::I(spd::SPD_SAMPLES as i64),
            Out::F(spd::SPD_START as f64),
            Out::F(spd::SPD_END as f64),
            Out::F(spd::SPD_INTERVAL as f64),
        ]),
        "tbl_names" => Some(cc::NAMES.iter().map(|n| Out::I(name_code(n))).collect()),
        "tbl_xyz" => {
            let mut o = vec![];
            for n in NAMES {
                let c = cc::XYZ_D65[n];
                o.extend([Out::F(c.x), Out::F(c.y), Out::F(c.z)]);
            }
            Some(o)
        }
        "tbl_white" => {
            use illuminant::xy::*;
            let w = [D50, D55, D60, D65, DCI_P3, ACES];
            Some(w.iter().flat_map(|c| [Out::F(c.x), Out::F(c.y), Out::F(c.Y)]).collect())
        }
        "tbl_rgb" => Some(dump_map(match i[0] {
            0 => &cc::SRGB_LINEAR,
            1 => &cc::SRGB_ENCODED,
            2 => &cc::ITUR_BT709_LINEAR,
            3 => &cc::ITUR_BT709_ENCODED,
            4 => &cc::ALEXA_WIDE_GAMUT_LINEAR,
            5 => &cc::ALEXA_WIDE_GAMUT_ENCODED,
            6 => &cc::ACES_CC_LINEAR,
            7 => &cc::ACES_CC_ENCODED,
            8 => &cc::ACES_CCT_LINEAR,
            9 => &cc::ACES_CCT_ENCODED,
            10 => &cc::ACES_CG_LINEAR,
            11 => &cc::ACES_CG_ENCODED,
            12 => &cc::ACES_LINEAR,
            13 => &cc::ACES_ENCODED,
            14 => &cc::ACES_PROXY_LINEAR,
            15 => &cc::ACES_PROXY_ENCODED,
            16 => &cc::DCI_P3_P_LINEAR,
            17 => &cc::DCI_P3_P_ENCODED,
            18 => &cc::DCI_P3_LINEAR,
            19 => &cc::DCI_P3_ENCODED,
            20 => &cc::PRO_PHOTO_RGB_LINEAR,
            21 => &cc::PRO_PHOTO_RGB_ENCODED,
            22 => &cc::BETA_RGB_LINEAR,
            23 => &cc::BETA_RGB_ENCODED,
            24 => &cc::RED_COLOR_LINEAR,
            25 => &cc::RED_COLOR_ENCODED,
            26 => &cc::RED_COLOR2_LINEAR,
            27 => &cc::RED_COLOR2_ENCODED,
            28 => &cc::RED_COLOR3_LINEAR,
            29 => &cc::RED_COLOR3_ENCODED,
            30 => &cc::RED_COLOR4_LINEAR,
            31 => &cc::RED_COLOR4_ENCODED,
            32 => &cc::DRAGON_COLOR_LINEAR,
            33 => &cc::DRAGON_COLOR_ENCODED,
            34 => &cc::DRAGON_COLOR2_LINEAR,
            35 => &cc::DRAGON_COLOR2_ENCODED,
            36 => &cc::SHARP_RGB_LINEAR,
            37 => &cc::SHARP_RGB_ENCODED,
            38 => &cc::ITUR_BT2020_LINEAR,
            39 => &cc::ITUR_BT2020_ENCODED,
            40 => &cc::ADOBE_RGB_1998_LINEAR,
            41 => &cc::ADOBE_RGB_1998_ENCODED,
            42 => &cc::ACES_FROM_SRGB,
            _ => return None,
        })),
        _ => None,
    }
}
