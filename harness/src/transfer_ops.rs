use crate::{f3, fs, R};
use colorspace::color_space_rgb::{model_f32, model_f64};
use colorspace::math::Real;
use colorspace::rgb::RGBf;
use colorspace::{decode, encode, ColorSpaceRGB};

pub fn model64(i: i64) -> &'static ColorSpaceRGB<f64> {
    match i {
        0 => &model_f64::SRGB,
        1 => &model_f64::ITUR_BT709,
        2 => &model_f64::ITUR_BT2020,
        3 => &model_f64::DCI_P3,
        4 => &model_f64::DCI_P3_D65,
        5 => &model_f64::ACES,
        6 => &model_f64::ACES_CG,
        7 => &model_f64::ADOBE_RGB_1998,
        8 => &model_f64::ALEXA_WIDE_GAMUT,
        _ => &model_f64::SRGB_DRV,
    }
}
pub fn model32(i: i64) -> &'static ColorSpaceRGB<f32> {
    match i {
        0 => &model_f32::SRGB,
        1 => &model_f32::ITUR_BT709,
        2 => &model_f32::ITUR_BT2020,
        3 => &model_f32::DCI_P3,
        4 => &model_f32::DCI_P3_D65,
        5 => &model_f32::ACES,
        6 => &model_f32::ACES_CG,
        7 => &model_f32::ADOBE_RGB_1998,
        _ => &model_f32::ALEXA_WIDE_GAMUT,
    }
}

pub fn enc_fn<T: Real>(cv: i64) -> fn(RGBf<T>) -> RGBf<T> {
    match cv {
        0 => encode::srgb::<T>,
        1 => encode::bt709::<T>,
        2 => encode::bt2020::<T>,
        3 => encode::linear::<T>,
        _ => encode::alexa_logc_v3::<T>,
    }
}
pub fn dec_fn<T: Real>(cv: i64) -> fn(RGBf<T>) -> RGBf<T> {
    match cv {
        0 => decode::srgb::<T>,
        1 => decode::bt709::<T>,
        2 => decode::bt2020::<T>,
        3 => decode::linear::<T>,
        _ => decode::alexa_logc_v3::<T>,
    }
}
fn enc_t<T: Real>(cv: i64) -> fn(T) -> T {
    match cv {
        0 => encode::srgb_t::<T>,
        1 => encode::bt709_t::<T>,
        2 => encode::bt2020_t::<T>,
        3 => encode::linear_t::<T>,
        _ => encode::alexa_logc_v3_t::<T>,
    }
}
fn dec_t<T: Real>(cv: i64) -> fn(T) -> T {
    match cv {
        0 => decode::srgb_t::<T>,
        1 => decode::bt709_t::<T>,
        2 => decode::bt2020_t::<T>,
        3 => decode::linear_t::<T>,
        _ => decode::alexa_logc_v3_t::<T>,
    }
}

pub fn rgb64(x: &[f64]) -> RGBf<f64> {
    RGBf::<f64>::new(x[0], x[1], x[2])
}
pub fn rgb32(x: &[f64]) -> RGBf<f32> {
    RGBf::<f32>::new(x[0] as f32, x[1] as f32, x[2] as f32)
}
pub fn out64(c: RGBf<f64>) -> R {
    f3(c.r, c.g, c.b)
}
pub fn out32(c: RGBf<f32>) -> R {
    f3(c.r as f64, c.g as f64, c.b as f64)
}

pub fn run(op: &str, i: &[i64], x: &[f64]) -> R {
    match op {
        "enc_fn64" => out64(enc_fn::<f64>(i[0])(rgb64(x))),
        "enc_fn32" => out32(enc_fn::<f32>(i[0])(rgb32(x))),
        "dec_fn64" => out64(dec_fn::<f64>(i[0])(rgb64(x))),
        "dec_fn32" => out32(dec_fn::<f32>(i[0])(rgb32(x))),
        "enc_t64" => fs([enc_t::<f64>(i[0])(x[0])]),
        "enc_t32" => fs([enc_t::<f32>(i[0])(x[0] as f32) as f64]),
        "dec_t64" => fs([dec_t::<f64>(i[0])(x[0])]),
        "dec_t32" => fs([dec_t::<f32>(i[0])(x[0] as f32) as f64]),
        "enc_model64" => out64(model64(i[0]).encode(rgb64(x))),
        "enc_model32" => out32(model32(i[0]).encode(rgb32(x))),
        "dec_model64" => out64(model64(i[0]).decode(rgb64(x))),
        "dec_model32" => out32(model32(i[0]).decode(rgb32(x))),
        "decenc64" => out64(model64(i[0]).decode(model64(i[0]).encode(rgb64(x)))),
        "decenc32" => out32(model32(i[0]).decode(model32(i[0]).encode(rgb32(x)))),
        "encdec64" => out64(model64(i[0]).encode(model64(i[0]).decode(rgb64(x)))),
        "encdec32" => out32(model32(i[0]).encode(model32(i[0]).decode(rgb32(x)))),
        "enc_order64" | "dec_order64" => {
            let m = model64(i[0]);
            let (a, b) = (RGBf::<f64>::from_scalar(x[0]), RGBf::<f64>::from_scalar(x[1]));
            let (a, b) = if op.starts_with("enc") { (m.encode(a), m.encode(b)) } else { (m.decode(a), m.decode(b)) };
            f3(b.r - a.r, b.g - a.g, b.b - a.b)
        }
        "enc_order32" | "dec_order32" => {
            let m = model32(i[0]);
            let (a, b) = (RGBf::<f32>::from_scalar(x[0] as f32), RGBf::<f32>::from_scalar(x[1] as f32));
            let (a, b) = if op.starts_with("enc") { (m.encode(a), m.encode(b)) } else { (m.decode(a), m.decode(b)) };
            f3((b.r as f64) - a.r as f64, (b.g as f64) - a.g as f64, (b.b as f64) - a.b as f64)
        }
        _ => None,
    }
}
