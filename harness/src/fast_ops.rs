//! Fixed-shape spectra (C18) and planar conversion (C19).
use crate::{f3, fs, Out, R};
use colorspace::spd::{self, SPD};
use colorspace::vspd::{SpdShape, VSPD};
use colorspace::{cmf, illuminant};
#[cfg(target_feature = "avx")]
use colorspace::{math::M3f32, transform, xyz::XYZf32};

fn spd40(x: &[f64]) -> SPD {
    let mut v = [0.0f32; 40];
    for (a, b) in v.iter_mut().zip(x) {
        *a = *b as f32;
    }
    SPD::new(v)
}
fn all(s: &SPD) -> Vec<f64> {
    s.values.iter().map(|v| *v as f64).collect()
}

#[cfg(target_feature = "avx")]
fn avx_path(s: &SPD) -> XYZf32 {
    spd::spd_to_xyz_avx(s)
}
#[cfg(not(target_feature = "avx"))]
fn avx_path(s: &SPD) -> colorspace::xyz::XYZf32 {
    spd::spd_to_xyz_scalar(s)
}

#[cfg(target_feature = "avx")]
fn planes(lanes: i64, m: &M3f32, x: &[f32], y: &[f32], z: &[f32]) -> (Vec<f32>, Vec<f32>, Vec<f32>) {
    match lanes {
        0 => transform::xyz_slice_to_rgb_avx_planes::<simdeez::scalar::Scalar>(m, x, y, z),
        1 => transform::xyz_slice_to_rgb_avx_planes::<simdeez::sse2::Sse2>(m, x, y, z),
        2 => transform::xyz_slice_to_rgb_avx_planes::<simdeez::sse41::Sse41>(m, x, y, z),
        _ => transform::xyz_slice_to_rgb_avx_planes::<simdeez::avx2::Avx2>(m, x, y, z),
    }
}

pub fn run(op: &str, i: &[i64], x: &[f64]) -> R {
    match op {
        "fast_xyz" => {
            let s = spd40(x);
            let mut o = vec![];
            for v in [s.to_xyz(), spd::spd_to_xyz(&s), spd::spd_to_xyz_scalar(&s), avx_path(&s)] {
                o.extend([v.x as f64, v.y as f64, v.z as f64]);
            }
            fs(o)
        }
        "fast_ref" => {
            let s = spd40(x);
            let r = VSPD::from_values(SpdShape::new(380.0, 770.0, 10.0), x).to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE);
            let v = s.to_xyz();
            f3(v.x as f64 - r.x, v.y as f64 - r.y, v.z as f64 - r.z)
        }
        "fast_mul" => fs(all(&(&spd40(x) * &spd40(&x[40..])))),
        "fast_const" => {
            let s = SPD::constant(x[0] as f32);
            let v = s.to_xyz();
            let mut o = all(&s);
            o.extend([v.x as f64, v.y as f64, v.z as f64]);
            fs(o)
        }
        "fast_iter" => {
            let mut s = spd40(x);
            let mut o: Vec<f64> = s.iter().map(|v| *v as f64).collect();
            for (k, v) in s.iter_mut().enumerate() {
                *v += (k + 1) as f32;
            }
            o.extend(all(&s.clone()));
            fs(o)
        }
        "fast_eq" => {
            let (a, b) = (spd40(x), spd40(&x[40..]));
            Some(vec![Out::I((a == b) as i64), Out::I((b == a) as i64)])
        }
        #[cfg(target_feature = "avx")]
        "planes" => {
            let mut m = [0.0f32; 9];
            for k in 0..9 {
                m[k] = x[k] as f32;
            }
            let f: Vec<f32> = x[9..].iter().map(|v| *v as f32).collect();
            let (a, b) = (i[1] as usize, i[2] as usize);
            let (r, g, bl) = planes(i[0], &M3f32::new(m), &f[..a], &f[a..a + b], &f[a + b..]);
            let mut o = vec![Out::I(r.len() as i64), Out::I(g.len() as i64), Out::I(bl.len() as i64)];
            o.extend(r.iter().chain(&g).chain(&bl).map(|v| Out::F(*v as f64)));
            Some(o)
        }
        #[cfg(target_feature = "avx")]
        "planes_long" => {
            let mut m = [0.0f32; 9];
            for k in 0..9 {
                m[k] = x[k] as f32;
            }
            let (n, period) = (i[1] as usize, i[2] as usize);
            let plane = |k: usize| -> Vec<f32> { (0..n).map(|j| x[9 + 3 * (j % period) + k] as f32).collect() };
            let (r, g, b) = planes(i[0], &M3f32::new(m), &plane(0), &plane(1), &plane(2));
            let mut o = vec![Out::I(r.len() as i64), Out::I(g.len() as i64), Out::I(b.len() as i64)];
            let v: Vec<[f64; 3]> = (0..n.min(r.len()).min(g.len()).min(b.len())).map(|j| [r[j] as f64, g[j] as f64, b[j] as f64]).collect();
            crate::space_ops::spread(&mut o, &v, period, 1);
            Some(o)
        }
        #[cfg(target_feature = "avx")]
        "planes_alone" => {
            let n = i[1] as usize;
            let f: Vec<f32> = x.iter().map(|v| *v as f32).collect();
            let sp = crate::transfer_ops::model32(i[2]);
            let m = transform::xyz_to_rgb_matrix(sp.white, sp);
            let (r, g, b) = planes(i[0], &m, &f[..n], &f[n..2 * n], &f[2 * n..]);
            let mut o = vec![0.0; 3 * n];
            for k in 0..n {
                let c = transform::xyz_to_rgb(&m, XYZf32::new(f[k], f[n + k], f[2 * n + k]));
                o[k] = r[k] as f64 - c.r as f64;
                o[n + k] = g[k] as f64 - c.g as f64;
                o[2 * n + k] = b[k] as f64 - c.b as f64;
            }
            fs(o)
        }
        _ => {
            let _ = i;
            None
        }
    }
}
