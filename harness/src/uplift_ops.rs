//! Spectral uplifting (C20) and daylight whites (C21).
use crate::table_ops::spectrum;
use crate::vspd_ops::view;
use crate::{f3, fs, R};
use colorspace::chromaticity::XYY;
use colorspace::illuminant::xy;
use colorspace::rgb::RGBf64;
use colorspace::transform::{xyz_to_rgb, xyz_to_rgb_matrix};
use colorspace::uplifting::uplift_my;
use colorspace::vspd::{SpdShape, VSPD};
use colorspace::color_space_rgb::model_f64;
use colorspace::{cmf, illuminant};

fn rgb(x: &[f64]) -> RGBf64 {
    RGBf64::new(x[0], x[1], x[2])
}

pub fn run(op: &str, i: &[i64], x: &[f64]) -> R {
    match op {
        "uplift" => Some(view(&uplift_my(rgb(x)))),
        "uplift_back" => {
            let c = uplift_my(rgb(x)).to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE);
            let b = xyz_to_rgb(&xyz_to_rgb_matrix(model_f64::SRGB.white, &model_f64::SRGB), c);
            fs([c.x, c.y, c.z, b.r, b.g, b.b])
        }
        "uplift_mix" => {
            let (a, b) = (x[6], x[7]);
            let m = rgb(&[0, 1, 2].map(|k| a * x[k] + b * x[k + 3]));
            let (p, q, m) = (uplift_my(rgb(x)), uplift_my(rgb(&x[3..])), uplift_my(m));
            fs((0..m.len()).map(|k| m.samples()[k].v - a * p.samples()[k].v - b * q.samples()[k].v).collect::<Vec<_>>())
        }
        "cct" => {
            if i[0] == 32 {
                match xy::cct(x[0] as f32) {
                    Ok(c) => fs([1.0, c.x as f64, c.y as f64, c.Y as f64]),
                    Err(_) => fs([0.0]),
                }
            } else {
                match xy::cct(x[0]) {
                    Ok(c) => fs([1.0, c.x, c.y, c.Y]),
                    Err(_) => fs([0.0]),
                }
            }
        }
        "white_cct" => {
            let w: XYY<f64> = [xy::D50, xy::D55, xy::D60, xy::D65][i[0] as usize];
            let c = xy::cct(x[0]).unwrap();
            f3(w.x - c.x, w.y - c.y, w.Y - c.Y)
        }
        "white_spectrum" => {
            let one = VSPD::constant(SpdShape::new(360.0, 780.0, x[0]), 1.0);
            let c = one.to_xyz(spectrum(3 + i[0]), &cmf::CIE_1931_2_DEGREE);
            let t = c.x + c.y + c.z;
            fs([c.x / t, c.y / t])
        }
        _ => None,
    }
}
