//! L*a*b* and colour differences (C11, C12).
use crate::arith_ops::{d, oxyz, t, xyz};
use crate::linalg_ops::xyy;
use crate::{fs, R};
use colorspace::delta_E;
use colorspace::lab::{delta_E_1976, delta_E_2000, lab, lab_to_xyz, xyz_to_lab, Lab};
use colorspace::math::Real;

fn mk<T: Real>(x: &[f64]) -> Lab<T> {
    lab(t(x[0]), t(x[1]), t(x[2]))
}
fn ol<T: Real>(l: Lab<T>) -> R {
    fs([d(l.L), d(l.a), d(l.b)])
}
fn g<T: Real>(op: &str, i: &[i64], x: &[f64]) -> R {
    match op {
        "to_lab" => ol(if i[1] == 0 {
            xyz_to_lab(xyz::<T>(x), xyz::<T>(&x[3..]))
        } else {
            xyz_to_lab(xyz::<T>(x), xyy::<T>(&x[3..]))
        }),
        "from_lab" => oxyz(if i[1] == 0 {
            lab_to_xyz(mk::<T>(x), xyz::<T>(&x[3..]))
        } else {
            lab_to_xyz(mk::<T>(x), xyy::<T>(&x[3..]))
        }),
        "lab_round" => {
            let w = xyz::<T>(&x[3..]);
            ol(xyz_to_lab(lab_to_xyz(mk::<T>(x), w), w))
        }
        "de76" | "de00" => {
            let (p, q) = (mk::<T>(x), mk::<T>(&x[3..]));
            if op == "de76" {
                fs([d(delta_E_1976(p, q)), d(delta_E_1976(q, p)), d(delta_E_1976(p, q)), d(delta_E_1976(q, p))])
            } else {
                fs([d(delta_E_2000(p, q)), d(delta_E_2000(q, p)), d(delta_E(p, q)), d(delta_E(q, p))])
            }
        }
        _ => None,
    }
}
pub fn run(op: &str, i: &[i64], x: &[f64]) -> R {
    if i.first() == Some(&32) {
        g::<f32>(op, i, x)
    } else {
        g::<f64>(op, i, x)
    }
}
