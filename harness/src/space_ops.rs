//! Colour spaces and conversions (C04, C05, C07, C08).
use crate::arith_ops::{d, orgb, oxyz, rgb, t, xyz};
use crate::linalg_ops::{mtx, om, xyy};
use crate::transfer_ops::{dec_fn, enc_fn, model32, model64};
use crate::{fs, Out, R};
use colorspace::chromaticity::XYY;
use colorspace::math::{Matrix33, Real};
use colorspace::rgb::{rgbu16, rgbu8, RGBf, RGBf32, RGBu16, RGBu8};
use colorspace::transform::*;
use colorspace::xyz::XYZ;
use colorspace::ColorSpaceRGB;

pub trait Model: Real {
    fn builtin(i: i64) -> &'static ColorSpaceRGB<Self>;
}
impl Model for f64 {
    fn builtin(i: i64) -> &'static ColorSpaceRGB<f64> {
        model64(i)
    }
}
impl Model for f32 {
    fn builtin(i: i64) -> &'static ColorSpaceRGB<f32> {
        model32(i)
    }
}

fn derived<T: Model + 'static>(x: &[f64], ce: i64, cd: i64) -> ColorSpaceRGB<T> {
    ColorSpaceRGB::new(
        xyy(x),
        xyy(&x[3..]),
        xyy(&x[6..]),
        xyy(&x[9..]),
        Box::new(enc_fn::<T>(ce)),
        Box::new(dec_fn::<T>(cd)),
    )
}
fn pf<T: Real>(o: &mut Vec<f64>, c: &XYY<T>) {
    o.extend([d(c.x), d(c.y), d(c.Y)]);
}
fn all_fields<T: Model + 'static>(s: &ColorSpaceRGB<T>) -> Vec<f64> {
    let mut o = vec![];
    pf(&mut o, &s.red);
    pf(&mut o, &s.green);
    pf(&mut o, &s.blue);
    pf(&mut o, &s.white);
    o.extend(s.xf_xyz_to_rgb.x.iter().map(|v| d(*v)));
    o.extend(s.xf_rgb_to_xyz.x.iter().map(|v| d(*v)));
    o
}
fn with_space<T: Model + 'static>(k: i64, prim: &[f64], f: impl FnOnce(&ColorSpaceRGB<T>) -> R) -> R {
    if k == 100 {
        f(&derived::<T>(prim, 3, 3))
    } else {
        f(T::builtin(k))
    }
}
fn v3<T: Real>(c: RGBf<T>) -> [f64; 3] {
    [d(c.r), d(c.g), d(c.b)]
}

fn g<T: Model + 'static>(op: &str, i: &[i64], x: &[f64]) -> R
where
    RGBu8: From<RGBf<T>>,
    RGBu16: From<RGBf<T>>,
{
    match op {
        "space_new" => fs(all_fields(&derived::<T>(x, 0, 0))),
        "space_laws" => {
            let s = derived::<T>(x, 0, 0);
            let mut o = vec![];
            let w = XYZ::<T>::from_xy(s.white.x, s.white.y) / t::<T>(100.0);
            let r = s.xf_xyz_to_rgb * w;
            o.extend([d(r.x), d(r.y), d(r.z)]);
            for k in 0..3 {
                let mut e = XYZ::<T>::from_scalar(T::zero());
                e[k] = T::one();
                let c = XYY::<T>::from_xyz(s.xf_rgb_to_xyz * e);
                o.extend([d(c.x), d(c.y)]);
            }
            o.extend((s.xf_xyz_to_rgb * s.xf_rgb_to_xyz).x.iter().map(|v| d(*v)));
            fs(o)
        }
        "space_given" => {
            let s = ColorSpaceRGB::<T>::new_with_specified_matrices(
                xyy(x),
                xyy(&x[3..]),
                xyy(&x[6..]),
                xyy(&x[9..]),
                mtx(&x[12..]),
                mtx(&x[21..]),
                Box::new(enc_fn::<T>(i[1])),
                Box::new(dec_fn::<T>(i[2])),
            );
            let mut o = all_fields(&s);
            o.extend(v3(s.encode(rgb(&x[30..]))));
            o.extend(v3(s.decode(rgb(&x[30..]))));
            fs(o)
        }
        "space_curves" => {
            let s = derived::<T>(x, i[1], i[2]);
            let mut o = v3(s.encode(rgb(&x[12..]))).to_vec();
            o.extend(v3(s.decode(rgb(&x[12..]))));
            fs(o)
        }
        "builtin" => fs(all_fields(T::builtin(i[1]))),
        "bi_to_xyz" => {
            let s = T::builtin(i[1]);
            let m = rgb_to_xyz_matrix(s.white, s);
            oxyz(rgb_to_xyz(&m, s.decode(rgb(x))))
        }
        "bi_from_xyz" => {
            let s = T::builtin(i[1]);
            let m = xyz_to_rgb_matrix(s.white, s);
            orgb(s.encode(xyz_to_rgb(&m, xyz(x))))
        }
        "conv_mtx" => with_space::<T>(i[2], &x[3..], |s| {
            om(if i[1] == 0 { xyz_to_rgb_matrix(xyy(x), s) } else { rgb_to_xyz_matrix(xyy(x), s) })
        }),
        "conv_mtx_cat" => with_space::<T>(i[1], &x[9..], |s| om(xyz_to_rgb_matrix_with_cat(&mtx(x), s))),
        "conv_laws" => with_space::<T>(i[1], &x[3..], |s| {
            let (a, b) = (xyz_to_rgb_matrix(xyy(x), s), rgb_to_xyz_matrix(xyy(x), s));
            let w = rgb_to_xyz(&b, RGBf::<T>::from_scalar(T::one()));
            let mut o = vec![d(w.x), d(w.y), d(w.z)];
            o.extend(v3(xyz_to_rgb(&a, XYZ::<T>::from(xyy::<T>(x)))));
            o.extend((a * b).x.iter().map(|v| d(*v)));
            fs(o)
        }),
        "convert" => {
            let m: Matrix33<T> = mtx(x);
            match i[1] {
                0 => orgb(xyz_to_rgb(&m, xyz(&x[9..]))),
                1 => {
                    let v: Vec<XYZ<T>> = x[9..].chunks(3).map(xyz::<T>).collect();
                    fs(xyz_slice_to_rgb(&m, &v).into_iter().flat_map(v3).collect::<Vec<_>>())
                }
                _ => oxyz(rgb_to_xyz(&m, rgb(&x[9..]))),
            }
        }
        "convert_long" => {
            let m: Matrix33<T> = mtx(x);
            let (n, period, run) = (i[1] as usize, i[2] as usize, i[3] as usize);
            let v: Vec<XYZ<T>> = (0..n).map(|j| xyz::<T>(&x[9 + 3 * ((j / run) % period)..])).collect();
            let r: Vec<[f64; 3]> = xyz_slice_to_rgb(&m, &v).into_iter().map(v3).collect();
            let mut o = vec![Out::I(r.len() as i64)];
            spread(&mut o, &r, period, run);
            Some(o)
        }
        "r2r_mtx" => om(rgb_to_rgb_matrix(T::builtin(i[1]), T::builtin(i[2]))),
        "r2r_nested" => {
            let n = i[2] as usize;
            let own = |p: &[f64], enc: bool, dec: bool, fail: bool| -> ColorSpaceRGB<T> {
                let f = move |on: bool| {
                    move |v: RGBf<T>| {
                        if on {
                            meanwhile::<T>();
                            if fail {
                                std::panic::panic_any("abandoned");
                            }
                        }
                        v
                    }
                };
                ColorSpaceRGB::new(xyy(p), xyy(&p[3..]), xyy(&p[6..]), xyy(&p[9..]), Box::new(f(enc)), Box::new(f(dec)))
            };
            let from: Vec<RGBf<T>> = x[..3 * n].chunks(3).map(rgb::<T>).collect();
            let (pa, pb) = (&x[3 * n..3 * n + 12], &x[3 * n + 12..]);
            let (a, b) = (own(pa, false, i[1] == 1, false), own(pb, i[1] == 0, false, false));
            if i[1] == 3 {
                let bad = own(pb, true, false, true);
                let mut to = vec![RGBf::<T>::new(t(3.0), t(4.0), t(5.0)); n];
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rgb_to_rgb(&a, &bad, &from, &mut to)));
                if r.is_ok() {
                    return fs(vec![]);
                }
            }
            let (c, to) = if i[1] == 2 {
                let mut to = vec![Busy(RGBf::<T>::new(t(3.0), t(4.0), t(5.0))); n];
                let c = rgb_to_rgb(&a, &b, &from, &mut to);
                (c, to.into_iter().map(|p| p.0).collect())
            } else {
                let mut to = vec![RGBf::<T>::new(t(3.0), t(4.0), t(5.0)); n];
                (rgb_to_rgb(&a, &b, &from, &mut to), to)
            };
            let mut o = vec![Out::I(c as i64)];
            o.extend(to.into_iter().flat_map(v3).map(Out::F));
            Some(o)
        }
        "r2r_mtx2" => two_spaces::<T>(i[1], i[2], 0, 0, x, |a, b| om(rgb_to_rgb_matrix(a, b))),
        "r2r" | "r2r_long" => two_spaces::<T>(i[1], i[2], i[6], i[7], &x[3 * i[8] as usize..], |a, b| {
            let n = i[5] as usize;
            match i[3] {
                0 => {
                    let mut to = vec![RGBf::<T>::new(t(3.0), t(4.0), t(5.0)); n];
                    let c = rgb_to_rgb(a, b, &pixels(i, x), &mut to);
                    report(op, i, c, to.into_iter().map(v3).collect())
                }
                1 => {
                    let mut to = vec![rgbu8(3, 4, 5); n];
                    let c = rgb_to_rgb(a, b, &pixels(i, x), &mut to);
                    report(op, i, c, to.into_iter().map(|c| [c.r as f64, c.g as f64, c.b as f64]).collect())
                }
                _ => {
                    let mut to = vec![rgbu16(3, 4, 5); n];
                    let c = rgb_to_rgb(a, b, &pixels(i, x), &mut to);
                    report(op, i, c, to.into_iter().map(|c| [c.r as f64, c.g as f64, c.b as f64]).collect())
                }
            }
        }),
        _ => None,
    }
}

/// a pixel type whose conversion uses the library
#[derive(Clone)]
struct Busy<T: Real>(RGBf<T>);
impl<T: Model + 'static> From<RGBf<T>> for Busy<T> {
    fn from(v: RGBf<T>) -> Self {
        meanwhile::<T>();
        Busy(v)
    }
}
/// what user code might do while one of its conversions is under way
fn meanwhile<T: Model + 'static>() {
    let (a, b) = (T::builtin(0), T::builtin(4));
    let mut to = vec![RGBf::<T>::from_scalar(T::zero()); 2];
    rgb_to_rgb(a, b, &[RGBf::from_scalar(T::one()), RGBf::from_scalar(T::zero())], &mut to);
    let m = xyz_to_rgb_matrix(b.white, a);
    xyz_slice_to_rgb(&m, &[XYZ::<T>::from_scalar(T::one())]);
    rgb_to_xyz(&rgb_to_xyz_matrix(a.white, b), RGBf::<T>::from_scalar(T::one()));
}

fn two_spaces<T: Model + 'static>(
    a: i64,
    b: i64,
    ca: i64,
    cb: i64,
    x: &[f64],
    f: impl FnOnce(&ColorSpaceRGB<T>, &ColorSpaceRGB<T>) -> R,
) -> R {
    let (da, db);
    let mut x = x;
    let a = if a == 100 {
        da = derived::<T>(x, ca, ca);
        x = &x[12..];
        &da
    } else {
        T::builtin(a)
    };
    let b = if b == 100 {
        db = derived::<T>(x, cb, cb);
        &db
    } else {
        T::builtin(b)
    };
    f(a, b)
}
fn pixels<T: Real>(i: &[i64], x: &[f64]) -> Vec<RGBf<T>> {
    let (n, period, run) = (i[4] as usize, i[8] as usize, i[9] as usize);
    (0..n).map(|j| rgb::<T>(&x[3 * ((j / run) % period)..])).collect()
}
fn report(op: &str, i: &[i64], count: usize, to: Vec<[f64; 3]>) -> R {
    let mut o = vec![Out::I(count as i64)];
    if op == "r2r" {
        o.extend(to.into_iter().flatten().map(Out::F));
    } else {
        let cut = (i[4] as usize).min(to.len());
        spread(&mut o, &to[..cut], i[8] as usize, i[9] as usize);
        if cut < to.len() {
            spread(&mut o, &to[cut..], 1, 1);
        }
    }
    Some(o)
}
/// least and greatest value of each channel, for every class of positions (j / run) % period
pub fn spread(o: &mut Vec<Out>, v: &[[f64; 3]], period: usize, run: usize) {
    for r in 0..period {
        for k in 0..3 {
            let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
            for (j, p) in v.iter().enumerate() {
                if (j / run) % period == r {
                    if p[k].is_nan() {
                        lo = f64::NAN;
                        hi = f64::NAN;
                        break;
                    }
                    lo = lo.min(p[k]);
                    hi = hi.max(p[k]);
                }
            }
            o.push(Out::F(lo));
            o.push(Out::F(hi));
        }
    }
}

pub fn run(op: &str, i: &[i64], x: &[f64]) -> R {
    match op {
        "r2r" | "r2r_long" if i[3] == 3 => two_spaces::<f64>(i[1], i[2], i[6], i[7], &x[3 * i[8] as usize..], |a, b| {
            let mut to = vec![RGBf32::new(3.0, 4.0, 5.0); i[5] as usize];
            let c = rgb_to_rgb(a, b, &pixels(i, x), &mut to);
            report(op, i, c, to.into_iter().map(v3).collect())
        }),
        _ if i.first() == Some(&32) => g::<f32>(op, i, x),
        _ => g::<f64>(op, i, x),
    }
}
