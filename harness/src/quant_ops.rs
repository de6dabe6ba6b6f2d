//! Storage conversions (C01).
use crate::{Out, R};
use colorspace::rgb::{RGBf32, RGBf64, RGBu16, RGBu8};

fn rgb8(i: &[i64]) -> RGBu8 {
    RGBu8 { r: i[0] as u8, g: i[1] as u8, b: i[2] as u8 }
}
fn rgb16(i: &[i64]) -> RGBu16 {
    RGBu16 { r: i[0] as u16, g: i[1] as u16, b: i[2] as u16 }
}
fn i8s(c: RGBu8) -> [i64; 3] {
    [c.r as i64, c.g as i64, c.b as i64]
}
fn i16s(c: RGBu16) -> [i64; 3] {
    [c.r as i64, c.g as i64, c.b as i64]
}
fn oi(v: [i64; 3]) -> R {
    Some(v.iter().map(|x| Out::I(*x)).collect())
}
fn deq(w: i64, bits: i64, k: &[i64]) -> [f64; 3] {
    match (w, bits) {
        (32, 8) => {
            let c: RGBf32 = rgb8(k).into();
            [c.r as f64, c.g as f64, c.b as f64]
        }
        (32, _) => {
            let c: RGBf32 = rgb16(k).into();
            [c.r as f64, c.g as f64, c.b as f64]
        }
        (_, 8) => {
            let c: RGBf64 = rgb8(k).into();
            [c.r, c.g, c.b]
        }
        _ => {
            let c: RGBf64 = rgb16(k).into();
            [c.r, c.g, c.b]
        }
    }
}
fn quant(w: i64, bits: i64, x: &[f64]) -> [i64; 3] {
    if w == 32 {
        let c = RGBf32::new(x[0] as f32, x[1] as f32, x[2] as f32);
        if bits == 8 { i8s(c.into()) } else { i16s(c.into()) }
    } else {
        let c = RGBf64::new(x[0], x[1], x[2]);
        if bits == 8 { i8s(c.into()) } else { i16s(c.into()) }
    }
}

pub fn run(op: &str, i: &[i64], x: &[f64]) -> R {
    match op {
        "quant" => oi(quant(i[0], i[1], x)),
        "dequant" => Some(deq(i[0], i[1], &i[2..]).iter().map(|v| Out::F(*v)).collect()),
        "code_rt" => oi(quant(i[0], i[1], &deq(i[0], i[1], &i[2..]))),
        "code_block" => {
            let mut o = vec![];
            for k in i[2..].chunks(3) {
                let f = deq(i[0], i[1], k);
                let q = quant(i[0], i[1], &f);
                for j in 0..3 {
                    o.push(Out::I(q[j]));
                    o.push(Out::F(f[j]));
                }
            }
            Some(o)
        }
        _ => None,
    }
}
