//! Matrices (C09), chromaticities (C10), chromatic adaptation (C06).
use crate::arith_ops::{ob, orgb, oxyz, rgb, t, d, xyz};
use crate::{fs, Out, R};
use colorspace::chromatic_adaptation::{bradford, cat02, von_kries};
use colorspace::chromaticity::{xy, XYY};
use colorspace::math::{M3f32, M3f64, Matrix33, Real};
use colorspace::xyz::XYZ;

pub fn mtx<T: Real>(x: &[f64]) -> Matrix33<T> {
    let mut m = Matrix33::<T>::make_identity();
    for i in 0..9 {
        m.x[i] = t(x[i]);
    }
    m
}
pub fn om<T: Real>(m: Matrix33<T>) -> R {
    fs(m.x.iter().map(|v| d(*v)).collect::<Vec<_>>())
}
pub fn xyy<T: Real>(x: &[f64]) -> XYY<T> {
    XYY::<T>::new(t(x[0]), t(x[1]), t(x[2]))
}
fn oxyy<T: Real>(c: XYY<T>) -> R {
    fs([d(c.x), d(c.y), d(c.Y)])
}
fn cat<T: Real, A: Into<XYZ<T>>, B: Into<XYZ<T>>>(k: i64, a: A, b: B) -> Matrix33<T> {
    match k {
        0 => bradford(a, b),
        1 => von_kries(a, b),
        _ => cat02(a, b),
    }
}

fn g<T: Real>(op: &str, i: &[i64], x: &[f64]) -> R {
    match op {
        "mat_inv" => {
            let m = mtx::<T>(x);
            match if i[1] == 0 { m.inverse() } else { m.gj_inverse() } {
                None => Some(vec![Out::I(0)]),
                Some(v) => {
                    let mut o = vec![Out::I(1)];
                    o.extend(v.x.iter().map(|e| Out::F(d(*e))));
                    Some(o)
                }
            }
        }
        "mat_inv_mul" => {
            let m = mtx::<T>(x);
            om(m * if i[1] == 0 { m.inverse() } else { m.gj_inverse() }.unwrap())
        }
        "mat_det" => fs([d(mtx::<T>(x).determinant())]),
        "mat_mul" => om(mtx::<T>(x) * mtx::<T>(&x[9..])),
        "mat_vec" => {
            if i[1] == 0 {
                oxyz(mtx::<T>(x) * xyz::<T>(&x[9..]))
            } else {
                orgb(mtx::<T>(x) * rgb::<T>(&x[9..]))
            }
        }
        "mat_scalar" => {
            let (m, b) = (mtx::<T>(x), t::<T>(x[9]));
            om(match i[1] {
                0 => m + b,
                1 => m - b,
                2 => m * b,
                3 => m / b,
                4 => -m,
                5 => m.transposed(),
                6 => Matrix33::<T>::make_identity(),
                _ => Matrix33::<T>::new(m.x),
            })
        }
        "mat_index" => fs([d(mtx::<T>(x)[i[1] as usize][i[2] as usize])]),
        "mat_set" => {
            let mut m = mtx::<T>(x);
            m[i[1] as usize][i[2] as usize] = t(x[9]);
            om(m)
        }
        "mat_eq" => Some(vec![ob(mtx::<T>(x) == mtx::<T>(&x[9..]))]),
        "xyy_to_xyz" => oxyz(match i[1] {
            0 => XYZ::<T>::from_chromaticity(xyy(x)),
            1 => XYZ::<T>::from(xyy::<T>(x)),
            2 => XYZ::<T>::from_xy(t(x[0]), t(x[1])),
            _ => xy::<T>(t(x[0]), t(x[1])).into(),
        }),
        "xyz_to_xyy" => oxyy(if i[1] == 0 { XYY::<T>::from_xyz(xyz(x)) } else { xyz::<T>(x).into() }),
        "xyy_rt" => oxyy(XYY::<T>::from_xyz(XYZ::<T>::from(xyy::<T>(x)))),
        "xyz_rt" => oxyz(XYZ::<T>::from(XYY::<T>::from_xyz(xyz::<T>(x)))),
        "xyz_norm" => oxyz(if i[1] == 0 { xyz::<T>(x).normalized() } else { xyz::<T>(x).normalized_y() }),
        "xyz_scale_xy" => {
            let a = XYY::<T>::from_xyz(xyz(x));
            let b = XYY::<T>::from_xyz(xyz::<T>(x) * t::<T>(x[3]));
            fs([d(a.x) - d(b.x), d(a.y) - d(b.y)])
        }
        "cat" => om(match (i[2], i[3]) {
            (0, 0) => cat::<T, _, _>(i[1], xyy::<T>(x), xyy::<T>(&x[3..])),
            (0, _) => cat::<T, _, _>(i[1], xyy::<T>(x), xyz::<T>(&x[3..])),
            (_, 0) => cat::<T, _, _>(i[1], xyz::<T>(x), xyy::<T>(&x[3..])),
            _ => cat::<T, _, _>(i[1], xyz::<T>(x), xyz::<T>(&x[3..])),
        }),
        "cat_white" => {
            let (a, b) = (xyy::<T>(x), xyy::<T>(&x[3..]));
            oxyz(cat::<T, _, _>(i[1], a, b) * XYZ::<T>::from(a))
        }
        "cat_chain" => {
            let (a, b, c) = (xyy::<T>(x), xyy::<T>(&x[3..]), xyy::<T>(&x[6..]));
            om(cat::<T, _, _>(i[1], b, c) * cat::<T, _, _>(i[1], a, b))
        }
        _ => None,
    }
}

pub fn run(op: &str, i: &[i64], x: &[f64]) -> R {
    match op {
        "mat_narrow" => om(M3f32::from(mtx::<f64>(x) as M3f64)),
        _ if i.first() == Some(&32) => g::<f32>(op, i, x),
        _ => g::<f64>(op, i, x),
    }
}
