//! One colour carried through the library (C27): every call converts what the call before answered.
use crate::arith_ops::{d, rgb, t, xyz};
use crate::linalg_ops::xyy;
use crate::space_ops::Model;
use crate::{f3, Out, Session, R};
use colorspace::chromatic_adaptation::cat02;
use colorspace::chromaticity::XYY;
use colorspace::lab::{lab, lab_to_xyz, xyz_to_lab};
use colorspace::math::M3f32;
use colorspace::rgb::{RGBf, RGBf32, RGBu16, RGBu8};
use colorspace::transform::*;
use colorspace::xyz::{XYZf32, XYZ};

fn ox<T: Model>(c: XYZ<T>) -> [f64; 3] {
    [d(c.x), d(c.y), d(c.z)]
}
fn or<T: Model>(c: RGBf<T>) -> [f64; 3] {
    [d(c.r), d(c.g), d(c.b)]
}
fn g<T: Model + 'static>(op: &str, i: &[i64], x: &[f64], v: &[f64; 3]) -> Option<[f64; 3]> {
    Some(match op {
        "j_put" => [x[0], x[1], x[2]],
        "j_xyy" => {
            let c: XYY<T> = if i[1] == 0 { XYY::from_xyz(xyz(v)) } else { xyz::<T>(v).into() };
            [d(c.x), d(c.y), d(c.Y)]
        }
        "j_xyz" => ox(if i[1] == 0 { XYZ::<T>::from(xyy::<T>(v)) } else { XYZ::from_chromaticity(xyy::<T>(v)) }),
        "j_lab" => {
            let c = if i[1] == 0 { xyz_to_lab(xyz::<T>(v), xyz::<T>(x)) } else { xyz_to_lab(xyz::<T>(v), xyy::<T>(x)) };
            [d(c.L), d(c.a), d(c.b)]
        }
        "j_unlab" => {
            let l = lab(t::<T>(v[0]), t(v[1]), t(v[2]));
            ox(if i[1] == 0 { lab_to_xyz(l, xyz::<T>(x)) } else { lab_to_xyz(l, xyy::<T>(x)) })
        }
        "j_rgb" => {
            let s = T::builtin(i[1]);
            match i[2] {
                2 => {
                    let r = xyz_slice_to_rgb(&xyz_to_rgb_matrix(xyy(x), s), &[xyz(v)]);
                    if r.len() != 1 {
                        return None;
                    }
                    or(r[0])
                }
                3 => or(xyz_to_rgb(&xyz_to_rgb_matrix_with_cat(&cat02(xyy::<T>(x), s.white), s), xyz(v))),
                _ => or(xyz_to_rgb(&xyz_to_rgb_matrix(xyy(x), s), xyz(v))),
            }
        }
        "j_unrgb" => ox(rgb_to_xyz(&rgb_to_xyz_matrix(xyy(x), T::builtin(i[1])), rgb(v))),
        "j_enc" => or(T::builtin(i[1]).encode(rgb(v))),
        "j_dec" => or(T::builtin(i[1]).decode(rgb(v))),
        "j_r2r" => {
            let mut to = [RGBf::<T>::from_scalar(T::zero())];
            rgb_to_rgb(T::builtin(i[1]), T::builtin(i[2]), &[rgb::<T>(v)], &mut to);
            or(to[0])
        }
        "j_cat" => {
            let m = match i[1] {
                0 => cat02(xyy::<T>(x), xyy::<T>(&x[3..])),
                1 => cat02(xyz::<T>(x), xyy::<T>(&x[3..])),
                2 => cat02(xyy::<T>(x), xyz::<T>(&x[3..])),
                _ => cat02(xyz::<T>(x), xyz::<T>(&x[3..])),
            };
            ox(m * xyz::<T>(v))
        }
        _ => return None,
    })
}
pub fn run(s: &mut Session, op: &str, i: &[i64], x: &[f64]) -> R {
    if !op.starts_with("j_") {
        return None;
    }
    let v = s.carried;
    let r = match op {
        // the matrix is derived in double precision, then narrowed
        "j_rgb" if i[0] == 32 && i[2] == 1 => {
            or(xyz_to_rgb(&M3f32::from(xyz_to_rgb_matrix(xyy::<f64>(x), <f64 as Model>::builtin(i[1]))), xyz::<f32>(&v)))
        }
        "j_unrgb" if i[0] == 32 && i[2] == 1 => {
            ox(rgb_to_xyz(&M3f32::from(rgb_to_xyz_matrix(xyy::<f64>(x), <f64 as Model>::builtin(i[1]))), rgb::<f32>(&v)))
        }
        "j_narrow" if i[1] == 0 => or(RGBf32::from(rgb::<f64>(&v))),
        "j_narrow" => ox(XYZf32::from(xyz::<f64>(&v))),
        "j_code" => {
            let k = match (i[0], i[1]) {
                (64, 8) => narrow8(RGBu8::from(rgb::<f64>(&v))),
                (64, _) => narrow16(RGBu16::from(rgb::<f64>(&v))),
                (_, 8) => narrow8(RGBu8::from(rgb::<f32>(&v))),
                _ => narrow16(RGBu16::from(rgb::<f32>(&v))),
            };
            return Some(k.iter().map(|c| Out::I(*c)).collect());
        }
        _ if i[0] == 32 => g::<f32>(op, i, x, &v)?,
        _ => g::<f64>(op, i, x, &v)?,
    };
    s.carried = r;
    f3(r[0], r[1], r[2])
}
fn narrow8(c: RGBu8) -> [i64; 3] {
    [c.r as i64, c.g as i64, c.b as i64]
}
fn narrow16(c: RGBu16) -> [i64; 3] {
    [c.r as i64, c.g as i64, c.b as i64]
}
