//! Spectra to tristimulus values (C16, C17, C23).
use crate::table_ops::{spectrum, NAMES};
use crate::vspd_ops::{samples, shape};
use crate::{f3, fs, R};
use colorspace::cmf::{self, CMF};
use colorspace::vspd::{lagrange_coefficients_astm_e2022, linspace, Sample, VSPD};
use colorspace::xyz::XYZf64;
use colorspace::{colorchecker as cc, illuminant, photometry};

fn day(k: i64) -> VSPD {
    spectrum(3 + k).clone()
}
/// illuminant and observer: published (index >= 0) or samples following in x
fn setup(i: &[i64], x: &[f64]) -> (VSPD, CMF) {
    let (ill, used) = if i[0] >= 0 {
        (day(i[0]), 0)
    } else {
        let n = i[1] as usize;
        (samples(n, x).into_iter().collect::<VSPD>(), 2 * n)
    };
    let x = &x[used..];
    let n = i[2] as usize;
    let obs = if n == 0 {
        cmf::CIE_1931_2_DEGREE.clone()
    } else {
        let g = |k: usize| samples(n, &x[2 * n * k..]).into_iter().collect::<VSPD>();
        CMF { x_bar: g(0), y_bar: g(1), z_bar: g(2) }
    };
    (ill, obs)
}
fn out(v: XYZf64) -> R {
    f3(v.x, v.y, v.z)
}

pub fn run(op: &str, i: &[i64], x: &[f64]) -> R {
    match op {
        "xyz" => {
            let n = i[0] as usize;
            let (l, o) = setup(&i[1..], &x[2 * n..]);
            out(VSPD::new(samples(n, x)).to_xyz(&l, &o))
        }
        "xyz_vals" => {
            let s = VSPD::from_values(shape(x), &x[3..3 + i[0] as usize]);
            out(s.to_xyz(&day(i[1]), &cmf::CIE_1931_2_DEGREE))
        }
        "xyz_const" => {
            let (l, o) = setup(i, &x[4..]);
            out(VSPD::constant(shape(x), x[3]).to_xyz(&l, &o))
        }
        "xyz_chart" => out(cc::SPECTRAL[NAMES[i[0] as usize]].to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE)),
        "xyz_lin" => {
            let n = i[0] as usize;
            let (v2, ab) = (&x[2 * n..3 * n], &x[3 * n..3 * n + 2]);
            let (l, o) = setup(&i[1..], &x[3 * n + 2..]);
            let s = samples(n, x);
            let t: Vec<Sample> = (0..n).map(|k| Sample::new(x[k], v2[k])).collect();
            let q: Vec<Sample> = (0..n).map(|k| Sample::new(x[k], ab[0] * s[k].v + ab[1] * v2[k])).collect();
            let (s, t, q) = (VSPD::new(s).to_xyz(&l, &o), VSPD::new(t).to_xyz(&l, &o), VSPD::new(q).to_xyz(&l, &o));
            f3(
                q.x - ab[0] * s.x - ab[1] * t.x,
                q.y - ab[0] * s.y - ab[1] * t.y,
                q.z - ab[0] * s.z - ab[1] * t.z,
            )
        }
        "xyz_dim" => {
            let n = i[0] as usize;
            let k = x[2 * n];
            let (l, o) = setup(&i[1..], &x[2 * n + 1..]);
            let s = VSPD::new(samples(n, x));
            let (a, b) = (s.to_xyz(&l, &o), s.to_xyz(&(&l * k), &o));
            f3(b.x - a.x, b.y - a.y, b.z - a.z)
        }
        "xyz_op" => {
            let n = i[1] as usize;
            let (s, h) = (VSPD::new(samples(n, x)), shape(&x[2 * n..]));
            let r = match i[0] {
                1 => s.extrapolate(h),
                2 => s.align(h),
                3 => s.trim(h),
                _ => &s * x[2 * n + 3],
            };
            out(r.to_xyz(&day(i[2]), &cmf::CIE_1931_2_DEGREE))
        }
        "lagrange" => fs(lagrange_coefficients_astm_e2022(x[0], i[1] as usize).concat()),
        "linspace" => fs(linspace(x[0], x[1], i[0] as usize).collect::<Vec<_>>()),
        "nit" => {
            let n = i[0] as usize;
            let (_, o) = setup(&i[1..], &x[2 * n..]);
            fs([photometry::spd_to_nit(&VSPD::new(samples(n, x)), &o)])
        }
        "nit_vals" => {
            let n = i[0] as usize;
            let (_, o) = setup(&i[1..], &x[3 + n..]);
            fs([photometry::spd_to_nit(&VSPD::from_values(shape(x), &x[3..3 + n]), &o)])
        }
        _ => None,
    }
}
