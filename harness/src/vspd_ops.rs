//! Spectra (C13, C14, C15): registers hold the spectra a client keeps.
use crate::{fs, Out, Session, R};
use colorspace::cmf::CMF;
use colorspace::interpolation::{ExtrapolatorConstant, SpragueCoefficients};
use colorspace::vspd::{Interval, Sample, SpdShape, VSPD};
use colorspace::{InterpolatorLinear, InterpolatorSprague};
use float_cmp::{ApproxEq, F64Margin};

/// an interval of zero stands for a shape without one
pub fn shape(x: &[f64]) -> SpdShape<f64> {
    if x[2] == 0.0 {
        return SpdShape { start: x[0], end: x[1], interval: Interval::Varying };
    }
    SpdShape::new(x[0], x[1], x[2])
}
pub fn samples(n: usize, x: &[f64]) -> Vec<Sample> {
    (0..n).map(|i| Sample::new(x[i], x[n + i])).collect()
}
fn make(how: i64, n: usize, x: &[f64]) -> VSPD {
    match how {
        0 => VSPD::new(samples(n, x)),
        1 => samples(n, x).into_iter().collect(),
        _ => (0..n).map(|i| (x[i], x[n + i])).collect(),
    }
}
/// everything a client can see
pub fn view(s: &VSPD) -> Vec<Out> {
    let mut o = vec![Out::F(s.start()), Out::F(s.end())];
    o.push(Out::F(match s.interval() {
        Interval::Uniform(v) => v,
        Interval::Varying => 0.0,
    }));
    o.push(Out::I(s.len() as i64));
    o.push(Out::I(s.is_empty() as i64));
    o.extend([s.first(), s.last()].iter().flat_map(|p| [Out::F(p.nm), Out::F(p.v)]));
    o.extend(s.samples().iter().flat_map(|p| [Out::F(p.nm), Out::F(p.v)]));
    let agree = s.iter().copied().eq(s.samples().iter().copied())
        && s.values().eq(s.samples().iter().map(|p| p.v))
        && s.wavelengths().eq(s.samples().iter().map(|p| p.nm))
        && s.shape().start == s.start()
        && s.shape().end == s.end()
        && s.shape().interval == s.interval()
        && s.iter().rev().eq(s.samples().iter().rev())
        && s.values().rev().eq(s.samples().iter().rev().map(|p| p.v))
        && s.wavelengths().rev().eq(s.samples().iter().rev().map(|p| p.nm));
    o.push(Out::I(agree as i64));
    o
}
/// n samples at x[0] + i x[1], values from the pattern x[2..], sample `odd` moved
fn long(n: usize, x: &[f64], odd: i64, by: f64) -> Vec<Sample> {
    let pat = &x[2..];
    (0..n).map(|k| Sample::new(x[0] + k as f64 * x[1] + if k as i64 == odd { by } else { 0.0 }, pat[k % pat.len()])).collect()
}
fn of(how: i64, l: &[Sample]) -> VSPD {
    match how {
        0 => VSPD::new(l.to_vec()),
        1 => l.iter().copied().collect(),
        _ => l.iter().map(|s| (s.nm, s.v)).collect(),
    }
}
fn keep(s: &mut Session, d: i64, v: VSPD) -> R {
    let o = view(&v);
    if d >= 0 {
        s.regs[d as usize] = Some(v);
    }
    Some(o)
}
fn pair(a: &VSPD, b: &VSPD) -> R {
    let m = F64Margin { epsilon: 0.0, ulps: 0 };
    Some(vec![Out::I((a == b) as i64), Out::I(a.approx_eq(b, m) as i64)])
}

pub fn run(s: &mut Session, op: &str, i: &[i64], x: &[f64]) -> R {
    let reg = |s: &Session, k: i64| s.regs[k as usize].clone().expect("empty register");
    match op {
        "r_none" => Some(vec![]),
        "r_new" => {
            let v = make(i[1], i[2] as usize, x);
            keep(s, i[0], v)
        }
        "r_peek" => Some(view(&make(i[0], i[1] as usize, x))),
        "r_const" => {
            let v = VSPD::constant(shape(x), x[3]);
            keep(s, i[0], v)
        }
        "r_vals" => {
            let v = VSPD::from_values(shape(x), &x[3..]);
            keep(s, i[0], v)
        }
        "r_interp" | "r_extrap" | "r_align" | "r_trim" => {
            let v = {
                let a = s.regs[i[1] as usize].as_ref().expect("empty register");
                match op {
                    "r_interp" => a.interpolate(shape(x)),
                    "r_extrap" => a.extrapolate(shape(x)),
                    "r_align" => a.align(shape(x)),
                    _ => a.trim(shape(x)),
                }
            };
            keep(s, i[0], v)
        }
        "r_scale" => {
            let a = reg(s, i[1]);
            let v = match i[2] {
                0 => &a * x[0],
                1 => a * x[0],
                2 => &a / x[0],
                _ => a / x[0],
            };
            keep(s, i[0], v)
        }
        "r_clone" => {
            let a = reg(s, i[1]);
            keep(s, i[0], a)
        }
        "r_dump" => Some(view(s.regs[i[0] as usize].as_ref().expect("empty register"))),
        "r_eq" => {
            let (a, b) = (s.regs[i[0] as usize].as_ref().unwrap(), s.regs[i[1] as usize].as_ref().unwrap());
            pair(a, b)
        }
        "sp_eq" => {
            let n = i[0] as usize;
            pair(&make(0, n, x), &make(0, n, &x[2 * n..]))
        }
        "sp_alike" => {
            let (n, m) = (i[0] as usize, i[1] as usize);
            let (a, b) = (make(0, n, &x[1..]), make(0, m, &x[1 + 2 * n..]));
            let mg = F64Margin { epsilon: x[0], ulps: 0 };
            Some(vec![Out::I((&a).approx_eq(&b, mg) as i64), Out::I((&b).approx_eq(&a, mg) as i64)])
        }
        "ip_sprague" => {
            let n = i[0] as usize;
            let v = make(0, n, x);
            let ip = InterpolatorSprague::<f64>::new(&v);
            fs(x[2 * n..].iter().map(|w| ip.evaluate(*w)).collect::<Vec<_>>())
        }
        "ip_linear" => {
            let n = i[0] as usize;
            let v = make(0, n, x);
            let ip = InterpolatorLinear::new(&v);
            fs(x[2 * n..].iter().map(|w| ip.evaluate(*w)).collect::<Vec<_>>())
        }
        "ip_coef" => {
            let k = i[1] as usize;
            if i[0] == 32 {
                let r: Vec<f32> = x.iter().map(|v| *v as f32).collect();
                let mut o: Vec<f64> = vec![];
                for c in [f32::coeff_c0(), f32::coeff_c1(), f32::coeff_c2(), f32::coeff_c3(), f32::coeff_a(&r, k)] {
                    o.extend(c.iter().map(|v| *v as f64));
                }
                fs(o)
            } else {
                let mut o: Vec<f64> = vec![];
                for c in [f64::coeff_c0(), f64::coeff_c1(), f64::coeff_c2(), f64::coeff_c3(), f64::coeff_a(x, k)] {
                    o.extend(c.iter());
                }
                fs(o)
            }
        }
        "sp_values" | "sp_op" => {
            let n = i[1] as usize;
            let v = make(0, n, x);
            let h = shape(&x[2 * n..]);
            let r = match i[0] {
                0 => v.interpolate(h),
                1 => v.extrapolate(h),
                2 => v.align(h),
                _ => v.trim(h),
            };
            if op == "sp_op" {
                Some(view(&r))
            } else {
                fs(r.values().collect::<Vec<_>>())
            }
        }
        "cmf_align" => {
            let n = i[0] as usize;
            let g = |k: usize| (0..n).map(|j| Sample::new(x[j], x[k * n + j])).collect::<VSPD>();
            let c = CMF { x_bar: g(1), y_bar: g(2), z_bar: g(3) };
            let a = c.align(shape(&x[4 * n..]));
            let h = a.shape();
            let mut o = vec![Out::F(h.start), Out::F(h.end), Out::F(match h.interval {
                Interval::Uniform(v) => v,
                Interval::Varying => 0.0,
            })];
            for p in [&a.x_bar, &a.y_bar, &a.z_bar] {
                o.extend(view(p));
            }
            Some(o)
        }
        "ip_long" => {
            let (n, p) = (i[1] as usize, i[2] as usize);
            let v = VSPD::new(long(n, &x[0..2 + p], -1, 0.0));
            let w = &x[2 + p..];
            if i[0] == 1 {
                let ip = InterpolatorLinear::new(&v);
                fs(w.iter().map(|w| ip.evaluate(*w)).collect::<Vec<_>>())
            } else {
                let ip = InterpolatorSprague::<f64>::new(&v);
                fs(w.iter().map(|w| ip.evaluate(*w)).collect::<Vec<_>>())
            }
        }
        "long_view" => {
            let l = long(i[1] as usize, &x[2..], i[3], x[0]);
            let (v, k) = (of(i[0], &l), x[1]);
            let mut o = view(&v);
            let agree = o.pop().unwrap();
            o.truncate(4);
            o.extend([Out::F(v.first().v), Out::F(v.last().v)]);
            let same = |a: &VSPD, f: f64| a.len() == l.len() && a.iter().zip(&l).all(|(a, b)| a.nm == b.nm && (a.v - b.v * f).abs() <= 1e-12);
            o.push(Out::I((v.samples() == &l && agree == Out::I(1)) as i64));
            o.push(Out::I((v == v.clone() && v == of(0, &l)) as i64));
            let (s1, s2) = (&v * k, v.clone() * k);
            o.push(Out::I((same(&s1, k) && same(&s2, k)) as i64));
            o.push(Out::I((same(&(&s1 / k), 1.0) && same(&(s2 / k), 1.0) && s1.interval() == v.interval()) as i64));
            let at = if i[3] < 0 { l.len() - 1 } else { i[3] as usize };
            let (mut a, mut b) = (l.clone(), l.clone());
            a[at].v += 0.5;
            b[at].nm += 0.001;
            let m = F64Margin { epsilon: 0.0, ulps: 0 };
            for c in [of(0, &a), of(0, &b)] {
                o.push(Out::I((v == c || (&v).approx_eq(&c, m)) as i64));
            }
            Some(o)
        }
        "long_op" => {
            let (n, p) = (i[1] as usize, i[2] as usize);
            let v = VSPD::new(long(n, &x[0..2 + p], -1, 0.0));
            let h = shape(&x[2 + p..]);
            let r = match i[0] {
                1 => v.extrapolate(h),
                2 => v.align(h),
                _ => v.trim(h),
            };
            let mut o = view(&r);
            let o2 = vec![o.remove(3), o.remove(0), o.remove(0), o.remove(0)];
            Some(o2.into_iter().chain(i[3..].iter().flat_map(|j| {
                let q = r.samples()[*j as usize];
                [Out::F(q.nm), Out::F(q.v)]
            })).collect())
        }
        "ip_const" => {
            let n = i[0] as usize;
            let v = make(0, n, x);
            let ip = ExtrapolatorConstant::new(&v);
            fs(x[2 * n..].iter().map(|w| ip.evaluate(*w)).collect::<Vec<_>>())
        }
        "shape_ends" => {
            let l: Vec<f64> = shape(x).iter().collect();
            Some(vec![Out::I(l.len() as i64), Out::F(l[0]), Out::F(l[l.len() - 1])])
        }
        "shape_iter" | "shape_len" => {
            let l: Vec<f64> = if i[0] == 32 {
                SpdShape::<f32>::new(x[0] as f32, x[1] as f32, x[2] as f32).iter().map(|v| v as f64).collect()
            } else {
                shape(x).iter().collect()
            };
            if op == "shape_len" {
                Some(vec![Out::I(l.len() as i64)])
            } else {
                fs(l)
            }
        }
        _ => None,
    }
}
