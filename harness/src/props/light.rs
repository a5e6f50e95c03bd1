//! Solar and infrared irradiance of walls and windows.
use super::heat::META;
use super::house::*;
use super::wea;
use crate::core::*;
use crate::{ensure, incon};
use calendar::Date;
use communication::{MetaOptions, SimulationModel};
use geometry::Point3D;
use light::solar_model::SolarModel;
use matrix::Matrix;
use model::{FenestrationType, Model, SimulationState, SimulationStateElement, SimulationStateHeader, SolarOptions, SurfaceTrait};
use serde_json::{json, Value};
use std::f64::consts::PI;
use weather::{CurrentWeather, PerezSky, ReinhartSky, SkyUnits, Solar, WeatherTrait};

/// the optical data, as stored in files
#[derive(Clone, Copy, Debug)]
struct View {
    sky: f64,
    ground: f64,
    air: f64,
}
struct OpticalInfo {
    front_surfaces_view_factors: Vec<View>,
    back_surfaces_view_factors: Vec<View>,
    front_fenestrations_view_factors: Vec<View>,
    back_fenestrations_view_factors: Vec<View>,
    front_surfaces_dc: Matrix,
    back_surfaces_dc: Matrix,
    front_fenestrations_dc: Matrix,
    back_fenestrations_dc: Matrix,
}
impl OpticalInfo {
    fn text(&self) -> String {
        let v = |l: &Vec<View>| l.iter().map(|x| json!({"sky": x.sky, "ground": x.ground, "air": x.air})).collect::<Vec<_>>();
        let m = |x: &Matrix| serde_json::to_value(x).unwrap_or(Value::Null);
        json!({
            "front_surfaces_view_factors": v(&self.front_surfaces_view_factors),
            "back_surfaces_view_factors": v(&self.back_surfaces_view_factors),
            "front_fenestrations_view_factors": v(&self.front_fenestrations_view_factors),
            "back_fenestrations_view_factors": v(&self.back_fenestrations_view_factors),
            "front_surfaces_dc": m(&self.front_surfaces_dc),
            "back_surfaces_dc": m(&self.back_surfaces_dc),
            "front_fenestrations_dc": m(&self.front_fenestrations_dc),
            "back_fenestrations_dc": m(&self.back_fenestrations_dc),
        })
        .to_string()
    }
    fn parse(t: &str) -> Option<Self> {
        let j: Value = serde_json::from_str(t).ok()?;
        let v = |k: &str| -> Option<Vec<View>> {
            let mut out = vec![];
            for x in j.get(k)?.as_array()? {
                out.push(View { sky: x["sky"].as_f64()?, ground: x["ground"].as_f64()?, air: x["air"].as_f64()? });
            }
            Some(out)
        };
        let m = |k: &str| -> Option<Matrix> { serde_json::from_value(j.get(k)?.clone()).ok() };
        Some(Self {
            front_surfaces_view_factors: v("front_surfaces_view_factors")?,
            back_surfaces_view_factors: v("back_surfaces_view_factors")?,
            front_fenestrations_view_factors: v("front_fenestrations_view_factors")?,
            back_fenestrations_view_factors: v("back_fenestrations_view_factors")?,
            front_surfaces_dc: m("front_surfaces_dc")?,
            back_surfaces_dc: m("back_surfaces_dc")?,
            front_fenestrations_dc: m("front_fenestrations_dc")?,
            back_fenestrations_dc: m("back_fenestrations_dc")?,
        })
    }
}

const SIGMA: f64 = 5.670374419e-8;
fn black(t: f64) -> f64 {
    SIGMA * (t + 273.15).powi(4)
}
struct Now(CurrentWeather);
impl WeatherTrait for Now {
    fn get_weather_data(&self, date: Date) -> CurrentWeather {
        let mut w = self.0;
        w.date = date;
        w
    }
}
fn get(m: &Matrix, i: usize, j: usize) -> f64 {
    m.get(i, j).unwrap_or(f64::NAN)
}

/* ------------------------------------------------------------------ any building */

fn rnd_bound(r: &mut Rng, nz: usize) -> B {
    match r.below(9) {
        0..=2 => B::Out,
        3..=5 => B::Space(r.below(nz)),
        6 => B::Amb(r.range(-10., 40.)),
        7 => B::Adiabatic,
        _ => B::Ground,
    }
}
fn rnd_walls(r: &mut Rng) -> House {
    let nz = 1 + r.below(2);
    let mut walls = vec![];
    let only_windows = r.chance(0.15);
    for _ in 0..1 + r.below(6) {
        let fen = if only_windows || r.chance(0.4) {
            Some(match r.below(4) {
                0 => FenestrationType::Opening,
                1 => FenestrationType::Door,
                _ => FenestrationType::Window,
            })
        } else {
            None
        };
        let layers = if r.chance(0.5) { rnd_glazed(r) } else { rnd_opaque(r, true) };
        walls.push(Wall { layers, pts: rnd_rect(r), front: rnd_bound(r, nz), back: rnd_bound(r, nz), fh: None, bh: None, fen });
    }
    House { vols: vec![30.; nz], inf: vec![], walls, hvacs: vec![], lums: vec![], terrain: None }
}
fn rnd_view(r: &mut Rng) -> View {
    let (a, b, c) = (r.f(), r.f(), r.f());
    View { sky: a / (a + b + c), ground: b / (a + b + c), air: c / (a + b + c) }
}
fn rnd_info(r: &mut Rng, ns: usize, nf: usize, mf: usize) -> OpticalInfo {
    let n = ReinhartSky::n_bins(mf);
    let mut dc = |k: usize| {
        if k == 0 {
            return Matrix::empty();
        }
        let mut m = Matrix::new(0., k, n);
        for i in 0..k {
            for j in 0..n {
                let v = if r.chance(0.3) { 0. } else { r.f() * 0.05 };
                let _ = m.set(i, j, v);
            }
        }
        m
    };
    let (front_surfaces_dc, back_surfaces_dc) = (dc(ns), dc(ns));
    let (front_fenestrations_dc, back_fenestrations_dc) = (dc(nf), dc(nf));
    let mut vf = |k: usize| (0..k).map(|_| rnd_view(r)).collect::<Vec<_>>();
    OpticalInfo {
        front_surfaces_view_factors: vf(ns),
        back_surfaces_view_factors: vf(ns),
        front_fenestrations_view_factors: vf(nf),
        back_fenestrations_view_factors: vf(nf),
        front_surfaces_dc,
        back_surfaces_dc,
        front_fenestrations_dc,
        back_fenestrations_dc,
    }
}
fn options(path: Option<&str>) -> SolarOptions {
    let mut o = SolarOptions::new();
    if let Some(p) = path {
        o.set_optical_data_path(p);
    }
    o
}
fn write(path: &str, text: &str) -> Result<(), Fail> {
    std::fs::write(path, text).map_err(|e| Fail::Inconclusive(format!("cannot write {}: {}", path, e)))
}
/// (solar front, solar back, ir front, ir back) of a wall, where reported
fn reported(m: &Model, st: &SimulationState, fen: bool, k: usize) -> [Option<f64>; 4] {
    if fen {
        let f = &m.fenestrations[k];
        [
            f.front_incident_solar_irradiance(st),
            f.back_incident_solar_irradiance(st),
            f.front_ir_irradiance(st),
            f.back_ir_irradiance(st),
        ]
    } else {
        let s = &m.surfaces[k];
        [
            s.front_incident_solar_irradiance(st),
            s.back_incident_solar_irradiance(st),
            s.front_ir_irradiance(st),
            s.back_ir_irradiance(st),
        ]
    }
}
fn is_ours(e: &SimulationStateElement) -> bool {
    let s = format!("{:?}", e);
    s.contains("IRIrradiance") || s.contains("SolarIrradiance")
}
/// gives walls their nodes, as the thermal module does
fn nodes(r: &mut Rng, m: &Model, st: &mut SimulationStateHeader) -> Result<(), Fail> {
    for (i, s) in m.surfaces.iter().enumerate() {
        if r.chance(0.8) {
            s.add_node_temperature_states(st, i, 3)?;
        }
    }
    for (i, s) in m.fenestrations.iter().enumerate() {
        if r.chance(0.8) && s.category != FenestrationType::Opening {
            s.add_node_temperature_states(st, i, 2)?;
        }
    }
    Ok(())
}
/// every irradiance that is reported follows from the optical data, the sky and the boundaries
fn march(c: &mut Case) -> R {
    let h = rnd_walls(&mut c.rng);
    let mf = 1 + c.rng.below(3);
    let loc = wea::rnd_loc(&mut c.rng);
    let solar: Solar = loc.get_solar();
    let meta = MetaOptions {
        latitude: loc.latitude,
        longitude: loc.longitude,
        standard_meridian: (loc.timezone as f64 * 15.).to_radians(),
        elevation: loc.elevation,
    };
    c.desc(format!("mf {} {:?} {:?}", mf, loc, h));
    let (m, mut st) = build(&h)?;
    let (ns, nf) = (m.surfaces.len(), m.fenestrations.len());
    let info = rnd_info(&mut c.rng, ns, nf, mf);
    let path = scratch(".json");
    write(&path, &info.text())?;
    nodes(&mut c.rng, &m, &mut st)?;
    let made = SolarModel::new(&meta, options(Some(&path)), &m, &mut st, 4);
    let _ = std::fs::remove_file(&path);
    let sm = made.map_err(|e| format!("refused its optical data: {}", e))?;
    let ours: Vec<bool> = st.elements.iter().map(is_ours).collect();
    let mut state = st.take_values().ok_or("no state")?;
    let mut mem = sm.allocate_memory(&state)?;
    for k in 0..state.len() {
        state[k] = if ours[k] { c.rng.range(0., 500.) } else { c.rng.range(-10., 60.) };
    }
    for _ in 0..4 {
        let date = wea::date_of(wea::rnd_day(&mut c.rng));
        let mut w = wea::rnd_weather_at(&mut c.rng, 0.);
        w.date = date;
        let night = c.rng.chance(0.3);
        let up = solar.sun_position_from_standard_time(date).map(|v| v.z > 0.02).unwrap_or(false);
        let (dir, dif) = if night || !up { (0., 0.) } else { (c.rng.range(0., 900.), c.rng.range(20., 400.)) };
        w.direct_normal_radiation = dir;
        w.diffuse_horizontal_radiation = dif;
        w.global_horizontal_radiation = dir + dif;
        let horizontal_ir = w.horizontal_infrared_radiation_intensity.unwrap_or_else(|| w.derive_horizontal_ir());
        let sky = if dir + dif > 0. {
            Some(PerezSky::gen_sky_vec(mf, &solar, date, w, SkyUnits::Solar, 0.2, true, true).map_err(Fail::Bad)?)
        } else {
            None
        };
        let before = state.clone();
        sm.march(date, &Now(w), &m, &mut state, &mut mem)?;
        for k in 0..state.len() {
            ensure!(
                ours[k] || state[k] == before[k],
                "element {} of the state is not an irradiance but changed from {} to {}",
                k,
                before[k],
                state[k]
            );
        }
        let (mut si, mut fi) = (0, 0);
        for (i, wall) in h.walls.iter().enumerate() {
            let fen = wall.fen.is_some();
            let k = if fen {
                fi += 1;
                fi - 1
            } else {
                si += 1;
                si - 1
            };
            if wall.fen == Some(FenestrationType::Opening) {
                continue;
            }
            let (now, old) = (reported(&m, &state, fen, k), reported(&m, &before, fen, k));
            let (t1, t2) = if fen {
                (m.fenestrations[k].first_node_temperature(&before), m.fenestrations[k].last_node_temperature(&before))
            } else {
                (m.surfaces[k].first_node_temperature(&before), m.surfaces[k].last_node_temperature(&before))
            };
            for (front, b) in [(true, &wall.front), (false, &wall.back)] {
                let (dc, vf) = match (fen, front) {
                    (false, true) => (&info.front_surfaces_dc, info.front_surfaces_view_factors[k]),
                    (false, false) => (&info.back_surfaces_dc, info.back_surfaces_view_factors[k]),
                    (true, true) => (&info.front_fenestrations_dc, info.front_fenestrations_view_factors[k]),
                    (true, false) => (&info.back_fenestrations_dc, info.back_fenestrations_view_factors[k]),
                };
                let (at_sun, at_ir) = if front { (0, 2) } else { (1, 3) };
                let what = format!("wall {} ({:?} {} side, facing {:?})", i, wall.fen, if front { "front" } else { "back" }, b);
                // sun
                let sun = now[at_sun].ok_or_else(|| Fail::Bad(format!("{} has no solar irradiance", what)))?;
                match (&sky, b) {
                    (None, _) => {
                        ensure!(sun == 0., "{} gets {} W/m2 of sun at night", what, sun);
                        c.event("night", 1);
                    }
                    (Some(sky), B::Out) | (Some(sky), B::Space(_)) => {
                        let mut e = 0.;
                        for j in 0..ReinhartSky::n_bins(mf) {
                            e += get(dc, k, j) * get(sky, j, 0);
                        }
                        let e = (e + old[at_sun].unwrap_or(f64::NAN)) / 2.;
                        ensure!((sun - e).abs() < 1e-6 * (1. + e.abs()), "{} gets {} W/m2 of sun instead of {}", what, sun, e);
                        c.event("sunny", 1);
                    }
                    (Some(_), _) => {
                        c.event("shut", 1);
                    }
                }
                // infrared
                let ir = now[at_ir].ok_or_else(|| Fail::Bad(format!("{} has no infrared irradiance", what)))?;
                let e = match b {
                    B::Out => vf.sky * horizontal_ir + (vf.ground + vf.air) * black(w.dry_bulb_temperature),
                    B::Amb(t) => black(*t),
                    B::Space(_) => black(if front { t1 } else { t2 }.unwrap_or(22.)),
                    B::Adiabatic | B::Ground => old[at_ir].unwrap_or(f64::NAN),
                };
                ensure!((ir - e).abs() < 1e-6 * (1. + e.abs()), "{} gets {} W/m2 of infrared instead of {}", what, ir, e);
                c.event("infrared", 1);
                c.seen(&format!("{:?} {} {} {:.1} {:.1}", b, fen, front, sun, ir));
            }
        }
    }
    Ok(())
}

/// optical data that are not, or are of something else, are refused
fn bad_data(c: &mut Case) -> R {
    let h = rnd_walls(&mut c.rng);
    let (m, mut st) = build(&h)?;
    let (ns, nf) = (m.surfaces.len(), m.fenestrations.len());
    let mut info = rnd_info(&mut c.rng, ns, nf, 1);
    let text = |i: &OpticalInfo| i.text();
    let kind = c.rng.below(5);
    let s = match kind {
        0 => {
            let (a, b) = if c.rng.chance(0.5) { (ns + 1, nf) } else { (ns, nf + 1) };
            info = rnd_info(&mut c.rng, a, b, 1);
            text(&info)
        }
        1 => {
            if ns > 0 {
                info = rnd_info(&mut c.rng, ns - 1, nf, 1)
            } else {
                info = rnd_info(&mut c.rng, ns, nf - 1, 1)
            }
            text(&info)
        }
        2 => {
            let t = text(&info);
            t[..c.rng.below(t.len())].to_string()
        }
        3 => "{}".to_string(),
        _ => {
            if ns > 0 {
                info.back_surfaces_view_factors.pop();
            } else {
                info.back_fenestrations_view_factors.pop();
            }
            text(&info)
        }
    };
    c.desc(format!("kind {} {:?}: {}", kind, h, &s[..s.len().min(200)]));
    let path = scratch(".json");
    write(&path, &s)?;
    let made = guarded(|| {
        let sm = SolarModel::new(&META, options(Some(&path)), &m, &mut st, 4)?;
        let mut state = st.take_values().ok_or("no state")?;
        let mut mem = sm.allocate_memory(&state)?;
        let mut w = wea::rnd_weather_at(&mut Rng::new(1), 0.);
        w.direct_normal_radiation = 100.;
        w.diffuse_horizontal_radiation = 100.;
        sm.march(Date { month: 3, day: 10, hour: 12. }, &Now(w), &m, &mut state, &mut mem)
    });
    let _ = std::fs::remove_file(&path);
    match made {
        Err(p) => return Err(Fail::Bad(format!("optical data that does not fit the model: {}", p))),
        Ok(Ok(())) => return Err(Fail::Bad("optical data that does not fit the model was used".into())),
        Ok(Err(e)) => {
            c.event("refused", 1);
            c.seen(&format!("{} {} {} {}", kind, ns, nf, e));
        }
    }
    Ok(())
}

/* ------------------------------------------------------------------ geometry */

/// the code under test samples at random (not from our seed): only what fails every time is a failure
fn insist(c: &mut Case, f: fn(&mut Case) -> R) -> R {
    let rng = c.rng.clone();
    for _ in 0..3 {
        match f(c) {
            Err(Fail::Bad(_)) => c.event("insisted", 1),
            x => return x,
        }
        c.rng = rng.clone();
    }
    f(c)
}
fn alone_(c: &mut Case) -> R {
    insist(c, alone)
}
fn room_(c: &mut Case) -> R {
    insist(c, room)
}
fn facing_(c: &mut Case) -> R {
    insist(c, facing)
}

fn computed(c: &mut Case, h: &House, points: usize, rays: usize, mf: usize) -> Result<(Model, OpticalInfo), Fail> {
    let (m, mut st) = build(h)?;
    let path = scratch(".json");
    let _ = std::fs::remove_file(&path);
    let mut o = options(Some(&path));
    o.set_n_solar_irradiance_points(points);
    o.set_solar_ambient_divitions(rays);
    o.set_solar_sky_discretization(mf);
    SolarModel::new(&META, o, &m, &mut st, 4).map(|_| ())?;
    let text = std::fs::read_to_string(&path).map_err(|e| Fail::Inconclusive(format!("{}: {}", path, e)))?;
    let _ = std::fs::remove_file(&path);
    let Some(info) = OpticalInfo::parse(&text) else { incon!("cannot read the optical data") };
    c.event("rays", (2 * points * rays * h.walls.len()) as u64);
    Ok((m, info))
}
fn opaque_black() -> Vec<Lay> {
    vec![Lay::Solid { k: 1., rho: 1000., cp: 1000., thick: 0.1, tau: 0., af: 1., ab: 1., ef: 0.9, eb: 0.9 }]
}
fn normal(p: &[Point3D]) -> [f64; 3] {
    let (a, b) = (p[1] - p[0], p[2] - p[1]);
    let n = a.cross(b);
    let l = n.length();
    [n.x / l, n.y / l, n.z / l]
}

/// a wall alone in the open
fn alone(c: &mut Case) -> R {
    let fen = if c.rng.chance(0.3) { Some(FenestrationType::Window) } else { None };
    let mut h = House { vols: vec![], inf: vec![], walls: vec![], hvacs: vec![], lums: vec![], terrain: None };
    let lit = c.rng.chance(0.8);
    let back = if lit { B::Out } else { B::Amb(10.) };
    let layers = if fen.is_some() { rnd_glazed(&mut c.rng) } else { rnd_opaque(&mut c.rng, true) };
    h.walls.push(Wall { layers, pts: rnd_rect(&mut c.rng), front: B::Out, back, fh: None, bh: None, fen });
    let mf = 1 + c.rng.below(3);
    c.desc(format!("mf {} {:?}", mf, h));
    let (_, info) = computed(c, &h, 20, 1000, mf)?;
    let n = normal(&h.walls[0].pts);
    let sky = ReinhartSky::new(mf);
    let (fdc, bdc, fvf, bvf) = if fen.is_some() {
        (&info.front_fenestrations_dc, &info.back_fenestrations_dc, &info.front_fenestrations_view_factors, &info.back_fenestrations_view_factors)
    } else {
        (&info.front_surfaces_dc, &info.back_surfaces_dc, &info.front_surfaces_view_factors, &info.back_surfaces_view_factors)
    };
    for (dc, vf, s) in [(fdc, fvf, 1.), (bdc, bvf, -1.)] {
        let n = [n[0] * s, n[1] * s, n[2] * s];
        let f_sky = (1. + n[2]) / 2.;
        let (rows, cols) = dc.size();
        ensure!(rows == 1 && cols == sky.n_bins && vf.len() == 1, "{} x {} daylight coefficients, {} view factors", rows, cols, vf.len());
        let total: f64 = (0..cols).map(|j| get(dc, 0, j)).sum();
        if s < 0. && !lit {
            ensure!(total == 0., "the side that faces no sun has daylight coefficients that add up to {}", total);
            c.event("unlit", 1);
        } else {
            ensure!((total - PI).abs() < 1e-6, "daylight coefficients add up to {} in the open", total);
            let from_sky = total - get(dc, 0, 0);
            ensure!(
                (from_sky / PI - f_sky).abs() < 0.03,
                "{} of what a side with normal {:?} sees is sky, not {}",
                from_sky / PI,
                n,
                f_sky
            );
            // where it looks at, compared with looking at the cosine-weighted hemisphere
            let mut got = [0.; 3];
            for j in 1..cols {
                let (d, v) = (sky.bin_dir(j), get(dc, 0, j));
                got = [got[0] + v * d.x, got[1] + v * d.y, got[2] + v * d.z];
            }
            let mut want = [0.; 3];
            let k = 20000;
            let up = if n[2].abs() < 0.9 { [0., 0., 1.] } else { [1., 0., 0.] };
            let cr = |a: [f64; 3], b: [f64; 3]| [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
            let e1 = cr(up, n);
            let l = (e1[0] * e1[0] + e1[1] * e1[1] + e1[2] * e1[2]).sqrt();
            let e1 = [e1[0] / l, e1[1] / l, e1[2] / l];
            let e2 = cr(n, e1);
            for _ in 0..k {
                let (u, p) = (c.rng.f(), c.rng.range(0., 2. * PI));
                let (r, z) = (u.sqrt(), (1. - u).sqrt());
                let (a, b) = (r * p.cos(), r * p.sin());
                let d = [0, 1, 2].map(|i| a * e1[i] + b * e2[i] + z * n[i]);
                if d[2] > 0. {
                    want = [0, 1, 2].map(|i| want[i] + d[i] * PI / k as f64);
                }
            }
            for i in 0..3 {
                ensure!(
                    (got[i] - want[i]).abs() < 0.15,
                    "a side with normal {:?} sees the sky towards {:?}, not {:?} (mean direction)",
                    n,
                    got,
                    want
                );
            }
            c.event("lit", 1);
        }
        // infrared
        let v = vf[0];
        let beta = f_sky.sqrt();
        ensure!(
            (v.sky - f_sky * beta).abs() < 0.012 && (v.ground - (1. - f_sky)).abs() < 0.012 && (v.air - f_sky * (1. - beta)).abs() < 0.012,
            "a side with normal {:?} in the open has view factors {:?} instead of sky {}, ground {}, air {}",
            n,
            v,
            f_sky * beta,
            1. - f_sky,
            f_sky * (1. - beta)
        );
        c.seen(&format!("{:.2} {:.2} {:.2}", n[0], n[1], n[2]));
    }
    Ok(())
}

fn p3(x: f64, y: f64, z: f64) -> Point3D {
    Point3D::new(x, y, z)
}
/// the walls of a box, seen from outside (front = outside)
fn box_walls(a: f64, b: f64, hh: f64) -> Vec<Vec<Point3D>> {
    vec![
        vec![p3(0., 0., 0.), p3(a, 0., 0.), p3(a, 0., hh), p3(0., 0., hh)], // south, facing -y
        vec![p3(a, 0., 0.), p3(a, b, 0.), p3(a, b, hh), p3(a, 0., hh)],     // east
        vec![p3(a, b, 0.), p3(0., b, 0.), p3(0., b, hh), p3(a, b, hh)],     // north
        vec![p3(0., b, 0.), p3(0., 0., 0.), p3(0., 0., hh), p3(0., b, hh)], // west
        vec![p3(0., 0., hh), p3(a, 0., hh), p3(a, b, hh), p3(0., b, hh)],   // roof
        vec![p3(0., b, 0.), p3(a, b, 0.), p3(a, 0., 0.), p3(0., 0., 0.)],   // floor
    ]
}
fn place(r: &mut Rng, pts: &mut [Vec<Point3D>]) {
    // somewhere, turned around the vertical
    let a = r.range(0., 2. * PI);
    let (dx, dy, dz) = (r.range(-30., 30.), r.range(-30., 30.), r.range(0., 20.));
    for w in pts.iter_mut() {
        for p in w.iter_mut() {
            *p = p3(p.x * a.cos() - p.y * a.sin() + dx, p.x * a.sin() + p.y * a.cos() + dy, p.z + dz);
        }
    }
}
/// transmittance of a pane of glass (n = 1.52) of transmissivity t
fn fresnel(t: f64, cos1: f64) -> f64 {
    let n = 1.52f64;
    let cos2 = (1. - (1. - cos1 * cos1) / (n * n)).sqrt();
    let mut out = 0.;
    let ti = t.powf(1. / cos2);
    for r in [((cos1 - n * cos2) / (cos1 + n * cos2)).powi(2), ((n * cos1 - cos2) / (n * cos1 + cos2)).powi(2)] {
        out += 0.5 * (1. - r).powi(2) * ti / (1. - (r * ti).powi(2));
    }
    out
}
/// hemispherical transmittance of glass that transmits tau at normal incidence
fn hemispherical(tau: f64) -> f64 {
    let (mut lo, mut hi) = (0., 2.);
    for _ in 0..60 {
        let mid = (lo + hi) / 2.;
        if fresnel(mid, 1.) < tau {
            lo = mid
        } else {
            hi = mid
        }
    }
    let n = 2000;
    (0..n).map(|i| ((i as f64 + 0.5) / n as f64).sqrt()).map(|cos| fresnel(lo, cos) / n as f64).sum()
}

/// a black room: what comes through its windows is what its walls get
fn room(c: &mut Case) -> R {
    let (a, b, hh) = (c.rng.range(2., 8.), c.rng.range(2., 8.), c.rng.range(2., 4.));
    let mut walls = box_walls(a, b, hh);
    place(&mut c.rng, &mut walls);
    // 0: no window; otherwise, one of the walls is glass; of a number of panes
    let glass = if c.rng.chance(0.25) { None } else { Some(c.rng.below(6)) };
    let trombe = glass.is_some() && c.rng.chance(0.2);
    let panes = 1 + c.rng.below(3);
    let mut layers: Vec<Lay> = vec![];
    for i in 0..panes {
        if i > 0 {
            layers.push(Lay::Gas { kind: 0, thick: 0.012 });
        }
        let tau = c.rng.range(0.4, 0.85);
        let mut af = (1. - tau) * c.rng.range(0.1, 0.9);
        let mut ab = (1. - tau) * c.rng.range(0.1, 0.9);
        if panes == 1 {
            af = 1. - tau - 0.07;
            ab = 1. - tau - 0.07;
        }
        layers.push(Lay::Solid { k: 1., rho: 2500., cp: 840., thick: 0.004, tau, af, ab, ef: 0.84, eb: 0.84 });
    }
    if trombe {
        layers.push(Lay::Gas { kind: 0, thick: 0.05 });
        layers.extend(opaque_black());
        if c.rng.chance(0.5) {
            layers.reverse(); // the glass indoors
        }
    }
    let stack: Vec<(f64, f64, f64, f64, f64)> = layers
        .iter()
        .filter_map(|l| match l {
            Lay::Solid { tau, af, ab, .. } => Some((*tau, 1. - tau - af, 1. - tau - ab, *af, *ab)),
            _ => None,
        })
        .collect();
    let (_, tau, _) = bounce(&stack);
    let as_fen = c.rng.chance(0.7);
    let mut h = House { vols: vec![a * b * hh], inf: vec![], walls: vec![], hvacs: vec![], lums: vec![], terrain: None };
    for (i, pts) in walls.into_iter().enumerate() {
        let is_glass = glass == Some(i);
        let mut w = Wall {
            layers: if is_glass { layers.clone() } else { opaque_black() },
            pts,
            front: B::Out,
            back: B::Space(0),
            fh: None,
            bh: None,
            fen: if is_glass && as_fen { Some(FenestrationType::Window) } else { None },
        };
        if c.rng.chance(0.5) {
            w = w.flipped();
        }
        h.walls.push(w);
    }
    c.desc(format!("{} x {} x {} tau {} {:?}", a, b, hh, tau, h));
    let (m, info) = computed(c, &h, 80, 150, 1)?;
    let (mut si, mut fi) = (0, 0);
    let mut inside = 0.;
    let mut entering = 0.;
    for (i, w) in h.walls.iter().enumerate() {
        let fen = w.fen.is_some();
        let k = if fen { fi } else { si };
        if fen {
            fi += 1
        } else {
            si += 1
        }
        let area = if fen { m.fenestrations[k].vertices.area() } else { m.surfaces[k].vertices.area() };
        let dc = |front: bool| match (fen, front) {
            (false, true) => &info.front_surfaces_dc,
            (false, false) => &info.back_surfaces_dc,
            (true, true) => &info.front_fenestrations_dc,
            (true, false) => &info.back_fenestrations_dc,
        };
        let sum = |front: bool| (0..ReinhartSky::n_bins(1)).map(|j| get(dc(front), k, j)).sum::<f64>();
        let (out, ins) = if w.front == B::Out { (sum(true), sum(false)) } else { (sum(false), sum(true)) };
        ensure!((out - PI).abs() < 1e-6, "the outside of wall {} of a box in the open has daylight coefficients that add up to {}", i, out);
        inside += ins * area;
        if glass == Some(i) {
            entering = area * PI * hemispherical(tau);
            // looks at black walls
            ensure!(ins < 0.01 * PI, "the inside of the window sees {} of the sky in black walls", ins / PI);
        } else if glass.is_none() || trombe {
            ensure!(ins < 0.01 * PI, "wall {} of a closed box has daylight coefficients that add up to {} inside", i, ins);
        }
    }
    if glass.is_some() && !trombe {
        ensure!(
            (inside - entering).abs() < 0.15 * entering,
            "{} enters through the window (transmittance {}) but the walls of the room get {}",
            entering,
            tau,
            inside
        );
        c.event(if panes > 1 { "insulated" } else { "single" }, 1);
    } else {
        c.event("closed", 1);
    }
    c.seen(&format!("{:?} {:.2} {:.2}", glass, tau, inside));
    Ok(())
}

/// two equal walls looking at each other
fn facing(c: &mut Case) -> R {
    let (w, hh, d) = (c.rng.range(1., 6.), c.rng.range(1., 6.), c.rng.range(0.5, 6.));
    let mut pts = vec![
        vec![p3(0., 0., 0.), p3(w, 0., 0.), p3(w, 0., hh), p3(0., 0., hh)], // facing -y
        vec![p3(w, d, 0.), p3(0., d, 0.), p3(0., d, hh), p3(w, d, hh)],     // facing +y
    ];
    place(&mut c.rng, &mut pts);
    let (x, y) = (w / d, hh / d);
    let f12 = 2. / (PI * x * y)
        * (((1. + x * x) * (1. + y * y) / (1. + x * x + y * y)).sqrt().ln()
            + x * (1. + y * y).sqrt() * (x / (1. + y * y).sqrt()).atan()
            + y * (1. + x * x).sqrt() * (y / (1. + x * x).sqrt()).atan()
            - x * x.atan()
            - y * y.atan());
    let mut h = House { vols: vec![], inf: vec![], walls: vec![], hvacs: vec![], lums: vec![], terrain: None };
    for p in pts {
        h.walls.push(Wall { layers: opaque_black(), pts: p, front: B::Out, back: B::Out, fh: None, bh: None, fen: None });
    }
    c.desc(format!("{} x {} at {}: {:?}", w, hh, d, h));
    let (_, info) = computed(c, &h, 60, 60, 1)?;
    for k in 0..2 {
        // the back sides look at each other
        let v = info.back_surfaces_view_factors[k];
        ensure!((v.sky + v.ground + v.air - 1.).abs() < 1e-6, "view factors {:?} do not add up to 1", v);
        ensure!(v.air > f12 - 0.1, "walls that fill {} of the view of each other have view factors {:?}", f12, v);
        ensure!(
            (v.ground - (1. - f12) / 2.).abs() < 0.08,
            "walls that fill {} of the view of each other have view factors {:?}",
            f12,
            v
        );
        let total: f64 = (0..ReinhartSky::n_bins(1)).map(|j| get(&info.back_surfaces_dc, k, j)).sum();
        ensure!((total / PI - (1. - f12)).abs() < 0.12, "black walls that fill {} of the view of each other get {} of the sky", f12, total / PI);
        let v = info.front_surfaces_view_factors[k];
        ensure!((v.ground - 0.5).abs() < 0.012, "the other side, in the open, has view factors {:?}", v);
        c.seen(&format!("{:.3}", f12));
    }
    c.event("pairs", 1);
    Ok(())
}

/// data are stored, and read back
fn stored(c: &mut Case) -> R {
    let mut h = rnd_walls(&mut c.rng);
    h.walls.truncate(3);
    for w in h.walls.iter_mut() {
        // nothing lights a hole in the air
        if w.fen == Some(FenestrationType::Opening) {
            w.fen = Some(FenestrationType::Door);
        }
    }
    let mf = 1 + c.rng.below(2);
    c.desc(format!("mf {} {:?}", mf, h));
    let path = scratch(".json");
    let _ = std::fs::remove_file(&path);
    let date = Date { month: 6, day: 20, hour: 12. };
    let meta = MetaOptions { latitude: 0.6, longitude: 0.3, standard_meridian: 0.3, elevation: 0. };
    let mut w = wea::rnd_weather_at(&mut c.rng, 0.);
    w.direct_normal_radiation = 500.;
    w.diffuse_horizontal_radiation = 100.;
    let mut res = vec![];
    for again in [false, true] {
        let (m, mut st) = build(&h)?;
        let mut o = options(Some(&path));
        // how it is calculated is irrelevant once it is stored
        o.set_n_solar_irradiance_points(if again { 3 } else { 2 });
        o.set_solar_ambient_divitions(20);
        o.set_solar_sky_discretization(if again { 3 } else { mf });
        let sm = SolarModel::new(&meta, o, &m, &mut st, 4)?;
        ensure!(std::path::Path::new(&path).is_file(), "optical data were not stored");
        let el: Vec<String> = st.elements.iter().map(|x| format!("{:?}", x)).collect();
        let mut state = st.take_values().ok_or("no state")?;
        let mut mem = sm.allocate_memory(&state)?;
        for _ in 0..3 {
            sm.march(date, &Now(w), &m, &mut state, &mut mem)?;
        }
        res.push(el.into_iter().zip((0..state.len()).map(|k| state[k])).collect::<std::collections::BTreeMap<_, _>>());
    }
    let _ = std::fs::remove_file(&path);
    ensure!(res[0].keys().eq(res[1].keys()), "the state depends on where the optical data come from");
    for (k, v) in &res[0] {
        let x = res[1][k];
        ensure!((x - v).abs() < 1e-6 * (1. + v.abs()), "{} is {}, but {} when optical data are read from the file", k, v, x);
        ensure!(v.is_finite() && *v >= 0., "{} is {}", k, v);
    }
    c.event("read_back", 1);
    c.seen(&format!("{:?}", h.walls.len()));
    c.seen(&format!("{:?}", res[0].values().map(|x| *x as i64).collect::<Vec<_>>()));
    Ok(())
}

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "L01",
        rule: "random models (surfaces, windows, doors, openings with every boundary) with random optical data, locations, dates and weather: every irradiance reported after each step against optical data x sky, boundaries and temperatures, and nothing else of the state changes; data that do not fit the model are refused; stored data read back give the same. Non-trivial: distinct (boundary, side, irradiances).",
        assumptions: &["the sky is that of the weather module (checked in W04)", "the sun is at least 1 degree above the horizon when there is radiation"],
        workloads: &[
            wl("march", 1200, 20000, march).need(&[("sunny", 3000), ("night", 3000), ("infrared", 10000), ("shut", 1000)]),
            wl("bad_data", 600, 6000, bad_data).need(&[("refused", 600)]),
            wl("stored", 60, 600, stored).need(&[("read_back", 60)]),
        ],
    },
    &Prop {
        id: "L02",
        rule: "single walls of any orientation in the open, and pairs of facing walls: daylight coefficients and view factors against closed-form view factors; the directions of the sky that light each side against sampling the hemisphere. Non-trivial: distinct normals and view factors.",
        assumptions: &["Monte Carlo: tolerances of at least 6 standard deviations"],
        workloads: &[
            wl("alone", 60, 800, alone_).need(&[("lit", 80), ("unlit", 4)]),
            wl("facing", 16, 200, facing_).need(&[("pairs", 16)]),
        ],
    },
    &Prop {
        id: "L03",
        rule: "boxes of black walls, one of them maybe of glass (1-3 panes, or glass before an opaque wall, seen from either side, as window or surface): no light in closed boxes, and what the walls get is what the glazing transmits. Non-trivial: distinct (window, transmittance, light inside).",
        assumptions: &["panes behave as glass (Fresnel, n = 1.52) of the same total normal transmittance", "15% of Monte Carlo and angular tolerance"],
        workloads: &[wl("room", 40, 400, room_).need(&[("closed", 8), ("insulated", 8), ("single", 3)])],
    },
];
