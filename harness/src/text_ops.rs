//! The textual form of values (C28): the text is read back into numbers.
use crate::arith_ops::{rgb, t, xyz};
use crate::vspd_ops::{samples, shape};
use crate::{Out, R};
use colorspace::chromaticity::XYY;
use colorspace::lab::lab;
use colorspace::math::{Matrix33, Real};
use colorspace::rgb::{rgbaf32, RGBu16, RGBu8};
use colorspace::spd::SPD;
use colorspace::vspd::{Interval, Sample, SpdShape, VSPD};
use std::fmt::{Debug, Display};

/// every number in the text, whatever stands between them; a missing interval reads as zero
fn read(s: String, w: i64) -> R {
    let words = s.split(|c: char| !(c.is_alphanumeric() || "_.+-".contains(c)));
    Some(
        words
            .filter_map(|p| {
                if p == "Varying" {
                    return Some(Out::F(0.0));
                }
                if w == 32 { p.parse::<f32>().ok().map(f64::from) } else { p.parse::<f64>().ok() }.map(Out::F)
            })
            .collect(),
    )
}
fn put<V: Display + Debug>(v: V, how: i64, w: i64) -> R {
    read(if how == 0 { format!("{}", v) } else { format!("{:?}", v) }, w)
}
fn colour<T: Real>(i: &[i64], x: &[f64]) -> R {
    let (a, b, c) = (t::<T>(x[0]), t::<T>(x[1]), t::<T>(x[2]));
    match i[0] {
        0 => put(rgb::<T>(x), i[2], i[1]),
        1 => put(xyz::<T>(x), i[2], i[1]),
        2 => read(format!("{:?}", XYY::new(a, b, c)), i[1]),
        _ => read(format!("{:?}", lab(a, b, c)), i[1]),
    }
}
fn matrix<T: Real>(w: i64, x: &[f64]) -> R {
    let v: Vec<T> = x.iter().map(|a| t(*a)).collect();
    read(format!("{:?}", Matrix33::<T>::new(v.try_into().unwrap())), w)
}

pub fn run(op: &str, i: &[i64], x: &[f64]) -> R {
    match op {
        "t_colour" if i[1] == 32 => colour::<f32>(i, x),
        "t_colour" => colour::<f64>(i, x),
        "t_codes" if i[0] == 8 => put(RGBu8 { r: x[0] as u8, g: x[1] as u8, b: x[2] as u8 }, i[1], 64),
        "t_codes" => put(RGBu16 { r: x[0] as u16, g: x[1] as u16, b: x[2] as u16 }, i[1], 64),
        "t_rgba" => read(format!("{:?}", rgbaf32(x[0] as f32, x[1] as f32, x[2] as f32, x[3] as f32)), 32),
        "t_matrix" if i[0] == 32 => matrix::<f32>(32, x),
        "t_matrix" => matrix::<f64>(64, x),
        "t_shape" if i[0] == 32 => {
            let interval = if x[2] == 0.0 { Interval::Varying } else { Interval::Uniform(x[2] as f32) };
            read(format!("{}", SpdShape { start: x[0] as f32, end: x[1] as f32, interval }), 32)
        }
        "t_shape" => read(format!("{}", shape(x)), 64),
        "t_interval" => {
            let (a, b) = if x[0] == 0.0 { (Interval::Varying, Interval::Varying) } else { (Interval::Uniform(x[0] as f32), Interval::Uniform(x[0])) };
            if i[0] == 32 { read(format!("{}", a), 32) } else { read(format!("{}", b), 64) }
        }
        "t_sample" => put(Sample::new(x[0], x[1]), i[0], 64),
        "t_spectrum" => put(VSPD::new(samples(i[1] as usize, x)), i[0], 64),
        "t_spd" => {
            let v: Vec<f32> = x.iter().map(|a| *a as f32).collect();
            put(SPD::new(v.try_into().unwrap()), i[0], 32)
        }
        _ => None,
    }
}
