//! Tristimulus arithmetic (C24).
use crate::{fs, Out, R};
use colorspace::math::{self, Bounded, One, Real, Zero};
use colorspace::rgb::{clamprgb, hmax, normalize, RGBf, RGBf32, RGBf64, RGBu16, RGBu8};
use colorspace::xyz::{XYZ, XYZf32, XYZf64};
use float_cmp::{ApproxEq, F32Margin, F64Margin};
use std::cmp::Ordering;

pub fn t<T: Real>(x: f64) -> T {
    T::from(x).unwrap()
}
pub fn d<T: Real>(x: T) -> f64 {
    x.to_f64().unwrap()
}
pub fn rgb<T: Real>(x: &[f64]) -> RGBf<T> {
    RGBf::<T>::new(t(x[0]), t(x[1]), t(x[2]))
}
pub fn xyz<T: Real>(x: &[f64]) -> XYZ<T> {
    XYZ::<T>::new(t(x[0]), t(x[1]), t(x[2]))
}
pub fn orgb<T: Real>(c: RGBf<T>) -> R {
    fs([d(c.r), d(c.g), d(c.b)])
}
pub fn oxyz<T: Real>(c: XYZ<T>) -> R {
    fs([d(c.x), d(c.y), d(c.z)])
}
pub fn ob(b: bool) -> Out {
    Out::I(b as i64)
}
fn ord(o: Option<Ordering>) -> Out {
    match o {
        Some(Ordering::Less) => Out::I(-1),
        Some(Ordering::Equal) => Out::I(0),
        Some(Ordering::Greater) => Out::I(1),
        None => Out::I(99),
    }
}
fn parse3(s: String, single: bool) -> R {
    let s = s.strip_prefix('(').and_then(|s| s.strip_suffix(')')).map(|s| s.to_string()).unwrap_or_default();
    fs(s.split(',').map(|p| {
        let v = p.trim().parse::<f64>().unwrap_or(f64::NAN);
        if single { v as f32 as f64 } else { v }
    }).collect::<Vec<_>>())
}

fn g<T: Real>(op: &str, i: &[i64], x: &[f64]) -> R {
    match op {
        "col_bin" if i[1] == 0 => {
            let (mut a, b) = (rgb::<T>(x), rgb::<T>(&x[3..]));
            orgb(match i[2] {
                0 => a + b,
                1 => a - b,
                2 => a * b,
                3 => a / b,
                _ => {
                    a += b;
                    a
                }
            })
        }
        "col_bin" => {
            let (mut a, b) = (xyz::<T>(x), xyz::<T>(&x[3..]));
            oxyz(match i[2] {
                0 => a + b,
                1 => a - b,
                2 => a * b,
                3 => a / b,
                _ => {
                    a += b;
                    a
                }
            })
        }
        "col_scalar" if i[1] == 0 => {
            let (a, b) = (rgb::<T>(x), t::<T>(x[3]));
            orgb(match i[2] {
                0 => a + b,
                1 => a - b,
                2 => a * b,
                _ => a / b,
            })
        }
        "col_scalar" => {
            let (a, b) = (xyz::<T>(x), t::<T>(x[3]));
            oxyz(match i[2] {
                0 => a + b,
                1 => a - b,
                2 => a * b,
                _ => a / b,
            })
        }
        "col_un" if i[1] == 0 => orgb(if i[2] == 0 { -rgb::<T>(x) } else { rgb::<T>(x).abs() }),
        "col_un" => oxyz(if i[2] == 0 { -xyz::<T>(x) } else { xyz::<T>(x).abs() }),
        "rgb_powf" => orgb(rgb::<T>(x).powf(t(x[3]))),
        "clamprgb" => orgb(clamprgb(rgb::<T>(x), t(x[3]), t(x[4]))),
        "hmax" => fs([d(hmax(rgb::<T>(x)))]),
        "normalize" => orgb(normalize(rgb::<T>(x))),
        "col_index" => {
            let k = i[2] as usize;
            fs([d(if i[1] == 0 { rgb::<T>(x)[k] } else { xyz::<T>(x)[k] })])
        }
        "col_set" => {
            let k = i[2] as usize;
            if i[1] == 0 {
                let mut c = rgb::<T>(x);
                c[k] = t(x[3]);
                orgb(c)
            } else {
                let mut c = xyz::<T>(x);
                c[k] = t(x[3]);
                oxyz(c)
            }
        }
        "col_cmp" => {
            if i[1] == 0 {
                let (a, b) = (rgb::<T>(x), rgb::<T>(&x[3..]));
                Some(vec![ob(a == b), ord(a.partial_cmp(&b))])
            } else {
                let (a, b) = (xyz::<T>(x), xyz::<T>(&x[3..]));
                Some(vec![ob(a == b), ord(a.partial_cmp(&b))])
            }
        }
        "col_const" if i[1] == 0 => orgb(match i[2] {
            0 => RGBf::<T>::zero(),
            1 => RGBf::<T>::one(),
            2 => <RGBf<T> as Bounded>::min_value(),
            3 => <RGBf<T> as Bounded>::max_value(),
            4 => RGBf::<T>::from_scalar(t(x[0])),
            5 => rgb::<T>(x),
            6 => RGBf { r: T::zero(), g: T::zero(), b: T::zero() },
            _ => colorspace::rgb::rgbf(t(x[0]), t(x[1]), t(x[2])),
        }),
        "col_const" => oxyz(match i[2] {
            0 => XYZ::<T>::zero(),
            1 => XYZ::<T>::one(),
            2 => <XYZ<T> as Bounded>::min_value(),
            3 => <XYZ<T> as Bounded>::max_value(),
            4 => XYZ::<T>::from_scalar(t(x[0])),
            5 => xyz::<T>(x),
            6 => XYZ { x: T::zero(), y: T::zero(), z: T::zero() },
            _ => colorspace::xyz::xyz(t(x[0]), t(x[1]), t(x[2])),
        }),
        "col_is_zero" => Some(vec![ob(if i[1] == 0 { rgb::<T>(x).is_zero() } else { xyz::<T>(x).is_zero() })]),
        "col_display" => parse3(if i[1] == 0 { format!("{}", rgb::<T>(x)) } else { format!("{}", xyz::<T>(x)) }, i[0] == 32),
        "cast_slice" => {
            let v: Vec<T> = x.iter().map(|a| t(*a)).collect();
            let s = RGBf::<T>::cast_slice(&v);
            let mut o = vec![Out::I(s.len() as i64)];
            for c in s {
                o.extend([Out::F(d(c.r)), Out::F(d(c.g)), Out::F(d(c.b))]);
            }
            Some(o)
        }
        "cast_long" => {
            let (n, period) = (i[1] as usize, i[2] as usize);
            let v: Vec<T> = (0..n).map(|j| t(x[j % (3 * period)])).collect();
            let s = RGBf::<T>::cast_slice(&v);
            let mut o = vec![Out::I(s.len() as i64)];
            let r: Vec<[f64; 3]> = s.iter().map(|c| [d(c.r), d(c.g), d(c.b)]).collect();
            crate::space_ops::spread(&mut o, &r, period, 1);
            Some(o)
        }
        "math" => {
            let (a, b) = (t::<T>(x[0]), t::<T>(x[1]));
            fs([d(match i[1] {
                0 => math::sqrt(a),
                1 => math::sqr(a),
                2 => math::abs(a),
                3 => math::sin(a),
                4 => math::cos(a),
                5 => math::atan2(a, b),
                6 => math::exp(a),
                7 => math::pow(a, b),
                8 => math::hypot(a, b),
                9 => math::powi(a, 3),
                10 => math::tan(a),
                11 => math::asin(a),
                _ => math::acos(a),
            })])
        }
        _ => None,
    }
}

pub fn run(op: &str, i: &[i64], x: &[f64]) -> R {
    match op {
        "col_display" if i[0] == 8 => parse3(format!("{}", RGBu8 { r: x[0] as u8, g: x[1] as u8, b: x[2] as u8 }), false),
        "col_display" if i[0] == 16 => parse3(format!("{}", RGBu16 { r: x[0] as u16, g: x[1] as u16, b: x[2] as u16 }), false),
        "cast_slice" if i[0] == 8 => {
            let v: Vec<u8> = x.iter().map(|a| *a as u8).collect();
            let s = RGBu8::cast_slice(&v);
            let mut o = vec![Out::I(s.len() as i64)];
            for c in s {
                o.extend([Out::I(c.r as i64), Out::I(c.g as i64), Out::I(c.b as i64)]);
            }
            Some(o)
        }
        "cast_long" if i[0] == 8 => {
            let (n, period) = (i[1] as usize, i[2] as usize);
            let v: Vec<u8> = (0..n).map(|j| x[j % (3 * period)] as u8).collect();
            let s = RGBu8::cast_slice(&v);
            let mut o = vec![Out::I(s.len() as i64)];
            let r: Vec<[f64; 3]> = s.iter().map(|c| [c.r as f64, c.g as f64, c.b as f64]).collect();
            crate::space_ops::spread(&mut o, &r, period, 1);
            Some(o)
        }
        "col_sum_long" => {
            let n = i[2] as usize * i[3] as usize;
            let it = (0..n).map(|j| &x[3 * (j % i[2] as usize)..]);
            match (i[0], i[1]) {
                (32, 0) => orgb(it.map(rgb::<f32>).sum::<RGBf32>()),
                (_, 0) => orgb(it.map(rgb::<f64>).sum::<RGBf64>()),
                _ => oxyz(it.map(xyz::<f32>).sum::<XYZf32>()),
            }
        }
        "scalar_col" => {
            let (a, b) = (rgb::<f32>(x), x[3] as f32);
            orgb(match i[2] {
                0 => b + a,
                1 => b - a,
                2 => b * a,
                _ => b / a,
            })
        }
        "col_sum" => match (i[0], i[1]) {
            (32, 0) => orgb(x.chunks(3).map(rgb::<f32>).sum::<RGBf32>()),
            (_, 0) => orgb(x.chunks(3).map(rgb::<f64>).sum::<RGBf64>()),
            _ => oxyz(x.chunks(3).map(xyz::<f32>).sum::<XYZf32>()),
        },
        "col_narrow" => {
            if i[0] == 0 {
                orgb(RGBf32::from(rgb::<f64>(x)))
            } else {
                oxyz(XYZf32::from(xyz::<f64>(x)))
            }
        }
        "col_approx" => Some(vec![ob(match (i[0], i[1]) {
            (32, 0) => rgb::<f32>(x).approx_eq(rgb::<f32>(&x[3..]), F32Margin { epsilon: x[6] as f32, ulps: 0 }),
            (32, _) => xyz::<f32>(x).approx_eq(xyz::<f32>(&x[3..]), F32Margin { epsilon: x[6] as f32, ulps: 0 }),
            (_, 0) => rgb::<f64>(x).approx_eq(rgb::<f64>(&x[3..]), F64Margin { epsilon: x[6], ulps: 0 }),
            _ => XYZf64::approx_eq(xyz::<f64>(x), xyz::<f64>(&x[3..]), F64Margin { epsilon: x[6], ulps: 0 }),
        })]),
        "col_approx_ulps" => Some(vec![ob(match (i[0], i[1]) {
            (32, 0) => rgb::<f32>(x).approx_eq(rgb::<f32>(&x[3..]), F32Margin { epsilon: 0.0, ulps: i[2] as i32 }),
            (32, _) => xyz::<f32>(x).approx_eq(xyz::<f32>(&x[3..]), F32Margin { epsilon: 0.0, ulps: i[2] as i32 }),
            (_, 0) => rgb::<f64>(x).approx_eq(rgb::<f64>(&x[3..]), F64Margin { epsilon: 0.0, ulps: i[2] }),
            _ => xyz::<f64>(x).approx_eq(xyz::<f64>(&x[3..]), F64Margin { epsilon: 0.0, ulps: i[2] }),
        })]),
        "lerp" => fs([math::lerp(x[0] as f32, x[1] as f32, x[2] as f32) as f64]),
        _ if i.first() == Some(&32) => g::<f32>(op, i, x),
        _ => g::<f64>(op, i, x),
    }
}
