//! Estimates of solar radiation against the models they are taken from
use super::wea::{date_of, rnd_day, rnd_weather_at};
use crate::core::*;
use crate::ensure;
use calendar::Date;
use geometry::Vector3D;
use std::f64::consts::PI;
use weather::solar::air_mass;
use weather::{PerezSky, ReinhartSky, SkyUnits, Solar, Time};

fn close(what: &str, got: f64, want: f64, rel: f64) -> R {
    ensure!((got - want).abs() <= rel * want.abs().max(1e-9), "{} is {}, not {}", what, got, want);
    Ok(())
}
/// Spencer (1971), on the day n (1 on January 1st)
fn extra(n: f64) -> f64 {
    let g = 2. * PI * (n - 1.) / 365.;
    1367.7 * (1.00011 + 0.034221 * g.cos() + 0.00128 * g.sin() + 0.000719 * (2. * g).cos() + 0.000077 * (2. * g).sin())
}
/// Kasten (1966)
fn mass(zenith: f64) -> f64 {
    1. / (zenith.cos() + 0.15 / (93.885 - zenith * 180. / PI).powf(1.253))
}
/// Maxwell (1987)
fn disc(kt: f64, am: f64, extra: f64) -> f64 {
    let horner = |c: [f64; 4]| c[0] + kt * (c[1] + kt * (c[2] + kt * c[3]));
    let (a, b, c) = if kt > 0.6 {
        (horner([-5.743, 21.77, -27.49, 11.56]), horner([41.40, -118.5, 66.05, 31.90]), horner([-47.01, 184.2, -222., 73.81]))
    } else {
        (horner([0.512, -1.56, 2.286, -2.222]), horner([0.37, 0.962, 0., 0.]), horner([-0.28, 0.932, -2.048, 0.]))
    };
    let knc = 0.866 + am * (-0.122 + am * (0.0121 + am * (-0.000653 + am * 0.000014)));
    (extra * (knc - (a + b * (c * am).exp()))).max(0.)
}
struct Place {
    solar: Solar,
    /// minutes of the meridian
    late: f64,
}
fn place(r: &mut Rng) -> Place {
    let (lat, lon) = (r.range(-65., 65.), r.range(-180., 180.));
    let mer = lon + r.range(-20., 20.);
    Place { solar: Solar::new(lat.to_radians(), lon.to_radians(), mer.to_radians()), late: 4. * (mer - lon) }
}
fn equation_of_time(n: f64) -> f64 {
    let b = 2. * PI * (n - 1.) / 365.;
    229.2 * (0.000075 + 0.001868 * b.cos() - 0.032077 * b.sin() - 0.014615 * (2. * b).cos() - 0.04089 * (2. * b).sin())
}
fn sun(zenith: f64, az: f64) -> Vector3D {
    Vector3D::new(zenith.sin() * az.sin(), zenith.sin() * az.cos(), zenith.cos())
}
fn formulas(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let p = place(r);
    let zenith = r.range(0.5, 89.).to_radians();
    let dir = sun(zenith, r.range(0., 2. * PI));
    let n = r.range(0., 364.99);
    let std = r.chance(0.5);
    let t = if std { Time::Standard(n) } else { Time::Solar(n) };
    let ns = if std { n + (p.late + equation_of_time(n)) / 1440. } else { n };
    c.desc(format!("{:?} zenith {} n {} standard {}", p.solar, zenith.to_degrees(), n, std));
    c.seen(&format!("{} {}", zenith.to_degrees() as i64, (n / 30.) as i64));
    close("air mass", air_mass(zenith), mass(zenith), 1e-9)?;
    // Hottel (1976)
    let elev = if r.chance(0.3) { 0. } else { r.range(0., 2500.) };
    let km = elev / 1000.;
    let tb = 0.4237 - 0.00821 * (6. - km) * (6. - km) + (0.5055 + 0.00595 * (6.5 - km) * (6.5 - km)) * (-(0.2711 + 0.01858 * (2.5 - km) * (2.5 - km)) / dir.z).exp();
    close("transmittance of the beam", p.solar.beam_atmosphere_transmittance(dir, elev), tb, 1e-9)?;
    // Liu and Jordan (1960)
    let e = extra(ns);
    close("global radiation of a clear sky", p.solar.clear_sky_global_horizontal_rad(t, dir, elev), e * dir.z * (tb + 0.271 - 0.294 * tb), 1e-7)?;
    let g = r.range(0., 1200.);
    close("clearness", p.solar.hourly_clearness_index(t, g), g / e, 1e-7)?;
    // Erbs (1982)
    let kt = if r.chance(0.2) { *r.pick(&[0., 0.22, 0.8, 1.]) } else { r.f() };
    let want = if kt <= 0.22 {
        1. - 0.09 * kt
    } else if kt <= 0.8 {
        0.9511 + kt * (-0.1604 + kt * (4.388 + kt * (-16.638 + kt * 12.336)))
    } else {
        0.165
    };
    close("diffuse fraction", p.solar.diffuse_fraction(kt), want, 1e-9)?;
    // Zhang and Huang (2002) with the coefficients of Bre et al. (2021)
    let (cc, t0, t3, ws, rh) = (if r.chance(0.2) { *r.pick(&[0., 1.]) } else { r.f() }, r.range(-20., 40.), r.range(-20., 40.), r.range(0., 20.), r.f());
    let want = (1367.7 * dir.z * (0.749833333 + cc * (0.043947778 - 0.28806125 * cc) + 0.016512222 * (t0 - t3) - 0.29925 * rh + 0.003777778 * ws) - 5.949946667).max(0.);
    let got = p.solar.estimate_global_horizontal_radiation(dir, cc, t0, t3, ws, rh);
    ensure!((got - want).abs() < 1e-6 * (1. + want), "global radiation for clouds {}, {} and {} C, wind {}, humidity {}: {}, not {}", cc, t0, t3, ws, rh, got, want);
    if want > 0. {
        c.event("cloudy", 1);
    }
    // DISC
    let g = r.range(0.05, 0.999) * e;
    let pressure = r.range(60000., 106000.);
    let got = p.solar.disc_direct_solar(t, dir, g, pressure);
    if zenith > 80.001f64.to_radians() {
        ensure!(got == 0., "direct radiation {} with the sun {} degrees from the zenith", got, zenith.to_degrees());
    } else if zenith < 79.999f64.to_radians() && (g / e - 0.6).abs() > 1e-6 {
        let want = disc(g / e, mass(zenith) * pressure / 101300., e);
        ensure!((got - want).abs() < 1e-6 * (1. + want), "direct radiation for a clearness of {}, sun {} degrees from the zenith and {} Pa is {}, not {}", g / e, zenith.to_degrees(), pressure, got, want);
        if want > 0. {
            c.event("direct", 1);
        }
    }
    Ok(())
}
fn table() -> &'static Vec<Vec<f64>> {
    static T: std::sync::OnceLock<Vec<Vec<f64>>> = std::sync::OnceLock::new();
    T.get_or_init(|| include_str!("../../data/dirint.txt").lines().map(|l| l.split(' ').map(|x| x.parse().unwrap()).collect()).collect())
}
/// None: too close to an edge
fn bin(v: f64, edges: &[f64]) -> Option<usize> {
    if edges.iter().any(|e| (e - v).abs() < 1e-6) {
        return None;
    }
    Some(edges.iter().filter(|e| v > **e).count())
}
fn day(r: &mut Rng) -> Date {
    date_of(rnd_day(r).clamp(0.1, 364.8))
}
/// Ineichen, Perez, Seal, Maxwell and Zalenka (1992)
fn dynamic(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let p = place(r);
    let zenith = match r.below(4) {
        0 => r.range(0.2, 79.9),
        _ => *r.pick(&[10., 30., 45., 60., 75.]) + r.range(-4., 4.),
    }
    .to_radians();
    let dir = sun(zenith, r.range(0., 2. * PI));
    let mut now = rnd_weather_at(r, 100.);
    now.date = day(r);
    now.pressure = r.range(75000., 104000.);
    now.dew_point_temperature = r.range(-20., 26.);
    let m = mass(zenith) * now.pressure / 101300.;
    let den = 1.031 * (-1.4 / (0.9 + 9.4 / m)).exp() + 0.1;
    let pick_k = |r: &mut Rng| if r.chance(0.5) { r.range(0.02, 0.99) } else { *r.pick(&[0.12, 0.32, 0.48, 0.63, 0.75, 0.9]) };
    let k0 = pick_k(r);
    let step = match r.below(3) {
        0 => 0.,
        1 => r.logu(0.002, 0.5),
        _ => *r.pick(&[0.008, 0.025, 0.05, 0.1, 0.2, 0.45]),
    };
    let extra_at = |d: Date| {
        let n = d.day_of_year();
        extra(n + (p.late + equation_of_time(n)) / 1440.)
    };
    let global = |d: Date, k: f64| k * den * extra_at(d) * dir.z;
    now.global_horizontal_radiation = global(now.date, k0);
    let (mut next, mut prev) = (now, now);
    next.date = day(r);
    prev.date = day(r);
    let (u, w) = (r.range(0., 2.), if r.chance(0.5) { 1. } else { -1. });
    let (k1, k2) = ((k0 + w * step * u).clamp(0.01, 1.), (k0 - w * step * (2. - u)).clamp(0.01, 1.));
    next.global_horizontal_radiation = global(next.date, k1);
    prev.global_horizontal_radiation = global(prev.date, k2);
    let kt = k0 * den;
    let dk = 0.5 * ((k0 - k1).abs() + (k0 - k2).abs());
    let water = (0.07 * now.dew_point_temperature - 0.075).exp();
    c.desc(format!("{:?} zenith {} clearness {} ({} before, {} after) dew point {} pressure {} on {:?}", p.solar, zenith.to_degrees(), k0, k2, k1, now.dew_point_temperature, now.pressure, now.date));
    let deg = zenith.to_degrees();
    let (Some(bk), Some(bz), Some(bd), Some(bw)) = (bin(k0, &[0.24, 0.4, 0.56, 0.7, 0.8]), bin(deg, &[25., 40., 55., 70., 80.]), bin(dk, &[0.015, 0.035, 0.07, 0.15, 0.3]), bin(water, &[1., 2., 3.])) else {
        return Ok(());
    };
    if kt > 0.999 || (kt - 0.6).abs() < 1e-6 {
        return Ok(());
    }
    let want = table()[bk * 6 + bz][bd * 5 + bw] * disc(kt, m, extra_at(now.date));
    let got = p.solar.perez_direct_normal_radiation(dir, now, Some(next), Some(prev));
    ensure!((got - want).abs() < 1e-5 * (1. + want), "direct radiation {}, not {} (cell {} {} {} {})", got, want, bk, bz, bd, bw);
    if want > 0. {
        c.seen(&format!("{} {} {} {}", bk, bz, bd, bw));
        c.event("cells", 1);
    }
    let low = sun(r.range(80.01, 89.9).to_radians(), 1.);
    let got = p.solar.perez_direct_normal_radiation(low, now, Some(next), Some(prev));
    ensure!(got == 0., "direct radiation {} with a sun that is low", got);
    Ok(())
}
// ---------------------------------------------------------------- the all-weather sky
/// Perez, Seals and Michalsky (1993), Table 1: a1-a4, b1-b4, c1-c4, d1-d4, e1-e4
const SKY: [[[f64; 4]; 5]; 8] = [
    [[1.3525, -0.2576, -0.2690, -1.4366], [-0.7670, 0.0007, 1.2734, -0.1233], [2.8000, 0.6004, 1.2375, 1.0000], [1.8734, 0.6297, 0.9738, 0.2809], [0.0356, -0.1246, -0.5718, 0.9938]],
    [[-1.2219, -0.7730, 1.4148, 1.1016], [-0.2054, 0.0367, -3.9128, 0.9156], [6.9750, 0.1774, 6.4477, -0.1239], [-1.5798, -0.5081, -1.7812, 0.1080], [0.2624, 0.0672, -0.2190, -0.4285]],
    [[-1.1000, -0.2515, 0.8952, 0.0156], [0.2782, -0.1812, -4.5000, 1.1766], [24.7219, -13.0812, -37.7000, 34.8438], [-5.0000, 1.5218, 3.9229, -2.6204], [-0.0156, 0.1597, 0.4199, -0.5562]],
    [[-0.5484, -0.6654, -0.2672, 0.7117], [0.7234, -0.6219, -5.6812, 2.6297], [33.3389, -18.3000, -62.2500, 52.0781], [-3.5000, 0.0016, 1.1477, 0.1062], [0.4659, -0.3296, -0.0876, -0.0329]],
    [[-0.6000, -0.3566, -2.5000, 2.3250], [0.2937, 0.0496, -5.6812, 1.8415], [21.0000, -4.7656, -21.5906, 7.2492], [-3.5000, -0.1554, 1.4062, 0.3988], [0.0032, 0.0766, -0.0656, -0.1294]],
    [[-1.0156, -0.3670, 1.0078, 1.4051], [0.2875, -0.5328, -3.8500, 3.3750], [14.0000, -0.9999, -7.1406, 7.5469], [-3.4000, -0.1078, -1.0750, 1.5702], [-0.0672, 0.4016, 0.3017, -0.4844]],
    [[-1.0000, 0.0211, 0.5025, -0.5119], [-0.3000, 0.1922, 0.7023, -1.6317], [19.0000, -5.0000, 1.2438, -1.9094], [-4.0000, 0.0250, 0.3844, 0.2656], [1.0468, -0.3788, -2.4517, 1.4656]],
    [[-1.0500, 0.0289, 0.4260, 0.3590], [-0.3250, 0.1156, 0.7781, 0.0025], [31.0625, -14.5000, -46.1148, 55.3750], [-7.2312, 0.4050, 13.3500, 0.6234], [1.5000, -0.6426, 1.8564, 0.5636]],
];
/// Perez et al. (1990), Table 4: luminous efficacy of the diffuse and of the direct radiation
const EFFICACY: [[[f64; 4]; 2]; 8] = [
    [[97.24, -0.46, 12.00, -8.91], [57.20, -4.55, -2.98, 117.12]],
    [[107.22, 1.15, 0.59, -3.95], [98.99, -3.46, -1.21, 12.38]],
    [[104.97, 2.96, -5.53, -8.77], [109.83, -4.90, -1.71, -8.81]],
    [[102.39, 5.59, -13.95, -13.90], [110.34, -5.84, -1.99, -4.56]],
    [[100.71, 5.94, -22.75, -23.74], [106.36, -3.97, -1.75, -6.16]],
    [[106.42, 3.83, -36.15, -28.83], [107.19, -1.25, -1.51, -26.73]],
    [[141.88, 1.90, -53.24, -14.03], [105.75, 0.77, -1.26, -34.44]],
    [[152.23, 0.35, -45.27, -7.98], [101.18, 1.58, -1.10, -8.29]],
];
fn all_weather(c: &mut Case) -> R {
    let Some((solar, date, s)) = super::wea::daytime(c) else {
        return Ok(());
    };
    let r = &mut c.rng;
    let zenith = s[2].acos().max(3f64.to_radians());
    let nsolar = solar.unwrap_solar_time(Time::Standard(date.day_of_year()));
    let am = mass(zenith);
    let ext = extra(nsolar);
    // any clearness and any brightness
    let eps = match r.below(9) {
        0 => r.range(1., 1.065),
        1 => r.range(1.065, 1.23),
        2 => r.range(1.23, 1.5),
        3 => r.range(1.5, 1.95),
        4 => r.range(1.95, 2.8),
        5 => r.range(2.8, 4.5),
        6 => r.range(4.5, 6.2),
        7 => r.range(6.2, 11.),
        _ => *r.pick(&[1., 1.0649, 1.0651, 1.2299, 1.2301, 1.4999, 1.5001, 1.9499, 1.9501, 2.7999, 2.8001, 4.4999, 4.5001, 6.1999, 6.2001, 11.8, 12.5, 20.]),
    };
    let delta = if r.chance(0.8) { r.range(0.03, 0.6) } else { r.range(0.004, 0.03) };
    let dif = delta * ext / am;
    let k3 = 1.041 * zenith.powi(3);
    let dir = dif * (eps - 1.) * (1. + k3);
    let mut w = rnd_weather_at(r, 0.);
    w.date = date;
    w.direct_normal_radiation = dir;
    w.diffuse_horizontal_radiation = dif;
    w.dew_point_temperature = r.range(-20., 26.);
    let albedo = r.range(0.05, 0.6);
    let dirs: Vec<Vector3D> = (0..12)
        .map(|k| {
            let (z, a): (f64, f64) = if k == 0 {
                (zenith, s[0].atan2(s[1]))
            } else if k < 4 {
                // around the sun
                ((s[2].acos() + r.range(-0.4, 0.4)).clamp(0., 1.55), s[0].atan2(s[1]) + r.range(-0.5, 0.5))
            } else {
                (r.range(-1f64, 1.).abs().acos().min(1.565), r.range(0., 2. * PI))
            };
            sun(z, a)
        })
        .collect();
    let d = format!("{:?} sun {:?} clearness {} brightness {} (direct {} diffuse {}) dew point {} albedo {}", date, s, eps, delta, dir, dif, w.dew_point_temperature, albedo);
    c.desc(d.clone());
    // the class
    let borders = [1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2];
    let e = ((dif + dir) / dif + k3) / (1. + k3);
    if borders.iter().any(|b| (e - b).abs() < 1e-6) || (delta - 0.2).abs() < 1e-9 || (delta - 0.01).abs() < 1e-9 {
        return Ok(());
    }
    let class = borders.iter().filter(|b| e > **b).count();
    let bright = delta.max(0.01);
    // Perez et al. (1993): a brightness of at least 0.2 for partly cloudy skies (as Radiance)
    let m = if e > 1.065 && e < 2.8 { bright.max(0.2) } else { bright };
    let x = |k: usize| SKY[class][k];
    let lin = |k: usize| x(k)[0] + x(k)[1] * zenith + m * (x(k)[2] + x(k)[3] * zenith);
    let (pa, pb, pe) = (lin(0), lin(1), lin(4));
    let (pc, pd) = if class == 0 {
        let (c3, d3) = (x(2), x(3));
        ((m * (c3[0] + c3[1] * zenith)).powf(c3[2]).exp() - c3[3], d3[2] + m * d3[3] - (m * (d3[0] + d3[1] * zenith)).exp())
    } else {
        (lin(2), lin(3))
    };
    let rel = |v: Vector3D| {
        let cg = (v.x * s[0] + v.y * s[1] + v.z * s[2]).clamp(-1., 1.);
        ((1. + pa * (pb / v.z.max(0.01)).exp()) * (1. + pc * (pd * cg.acos()).exp() + pe * cg * cg)).max(0.)
    };
    // normalised over the 145 Tregenza patches
    let sky = ReinhartSky::new(1);
    let norm: f64 = (1..sky.n_bins).map(|i| rel(sky.bin_dir(i)) * sky.bin_solid_angle(i) * sky.bin_dir(i).z).sum();
    if norm < 1e-2 {
        return Ok(());
    }
    let water = (0.07 * w.dew_point_temperature - 0.075).exp();
    let eff = |t: [f64; 4], last: f64, z: f64| t[0] + t[1] * water + t[2] * z + t[3] * last;
    let lum_dif = eff(EFFICACY[class][0], bright.ln(), s[2]) / 179.;
    let lum_dir = eff(EFFICACY[class][1], bright, (5.73 * zenith - 5.).exp()).max(0.) / 179.;
    if s[2].acos() < 3.1f64.to_radians() || lum_dif <= 0. {
        return Ok(());
    }
    for (name, units, fd, fb) in [("solar", SkyUnits::Solar, 1., 1.), ("visible", SkyUnits::Visible, lum_dif, lum_dir)] {
        let f = PerezSky::get_sky_func_standard_time(units, &solar, date, w.dew_point_temperature, dif, dir);
        for v in &dirs {
            let want = dif * fd * rel(*v) / norm;
            let got = f(*v);
            ensure!((got - want).abs() < 1e-6 * dif + 1e-4 * want, "{} radiance of the sky towards {} is {}, not {} (clearness class {}); {}", name, v, got, want, class + 1, d);
            c.event("directions", 1);
        }
        let sum = |v: &matrix::Matrix, proj: bool| -> Result<f64, Fail> {
            let mut t = 0.;
            for i in 1..sky.n_bins {
                t += v.get(i, 0).map_err(Fail::Bad)? * sky.bin_solid_angle(i) * if proj { sky.bin_dir(i).z } else { 1. };
            }
            Ok(t)
        };
        let get = |al, a, b| PerezSky::gen_sky_vec(1, &solar, date, w, units, al, a, b).map_err(Fail::Bad);
        let total = sum(&get(0., true, false)?, true)?;
        close(&format!("{} radiation of the sky ({})", name, d), total, dif * fd, 1e-5)?;
        if dir > 0.01 {
            let total = sum(&get(0., false, true)?, false)?;
            close(&format!("{} radiation of the sun ({})", name, d), total, dir * fb, 1e-5)?;
        }
        let ground = get(albedo, false, false)?.get(0, 0).map_err(Fail::Bad)?;
        close(&format!("{} radiance of the ground ({})", name, d), ground, albedo * (dif * fd + dir * fb * s[2]) / PI, 1e-5)?;
    }
    c.event(["class1", "class2", "class3", "class4", "class5", "class6", "class7", "class8"][class], 1);
    c.seen(&format!("{} {:.1} {:.0}", class, delta, zenith.to_degrees() / 3.));
    Ok(())
}
#[rustfmt::skip]
pub const PROPS: &[&Prop] = &[
    &Prop {
        id: "W07",
        rule: "suns from the zenith to the horizon on any day and place; air mass, transmittance, clear-sky radiation, clearness, diffuse fraction, radiation under clouds and direct radiation against implementations of the published formulas; the dynamic estimate of the direct radiation against the published table, cell by cell. Non-trivial: distinct (zenith, month), (cells of the table).",
        assumptions: &["neighbouring hours are assessed with the sun of the hour, as in the code", "clearness below 0.999; both neighbours known", "the table is a copy of the one in the code, whose layout was checked against the paper"],
        workloads: &[wl("formulas", 100000, 2000000, formulas).need(&[("cloudy", 20000), ("direct", 20000)]), wl("dynamic", 200000, 4000000, dynamic).need(&[("cells", 50000)])],
    },
    &Prop {
        id: "W08",
        rule: "daytimes all over the world with any clearness (all eight classes, just beside each border) and brightness; radiance of the sky towards the sun, around it and elsewhere, and totals of sky, sun and ground, in solar and visible units, against an implementation of the all-weather model and the luminous efficacies. Non-trivial: distinct (class, brightness, zenith).",
        assumptions: &["the coefficients are those of the papers as Radiance's gendaylit has them", "normalised over the 145 Tregenza patches; negative radiances count as none", "suns within 3.1 degrees of the zenith are skipped"],
        workloads: &[wl("all_weather", 6000, 100000, all_weather).need(&[("class1", 300), ("class2", 300), ("class3", 300), ("class4", 300), ("class5", 300), ("class6", 300), ("class7", 300), ("class8", 300)])],
    },
];
