//! Whole simulations: results file, determinism, controllers and their API, simulation state.
use super::heat::{rnd_house, META};
use super::house::*;
use super::wea::{date_of, rnd_day, rnd_loc};
use crate::core::*;
use crate::ensure;
use calendar::Date;
use communication::{MetaOptions, SimulationModel};
use model::{
    Infiltration, Model, Output, SimulationState, SimulationStateElement as E, SimulationStateHeader, SolarOptions, HVAC,
};
use simple::control_trait::SimpleControl;
use simple::run_simulation::{run, run_rhai, SimOptions};
use simple::{MultiphysicsModel, OccupantBehaviour, RhaiControlScript, VoidControl};
use std::borrow::Borrow;
use std::cell::Cell;
use std::sync::{Arc, Mutex};
use weather::{CurrentWeather, Location, Weather};

pub fn small_house(r: &mut Rng) -> House {
    let mut h = rnd_house(r, true);
    h.walls.truncate(3);
    if h.walls.len() == 3 && r.chance(0.5) {
        h.walls.truncate(1);
    }
    for i in 0..h.vols.len() {
        h.inf[i] = match r.below(4) {
            0 => Some(Infiltration::Constant { flow: r.range(0., 0.02) * h.vols[i] / 10. }),
            1 => Some(Infiltration::Doe2 { flow: r.range(0., 0.0005) * h.vols[i] }),
            2 => Some(Infiltration::Blast { flow: r.range(0., 0.0005) * h.vols[i] }),
            _ => None,
        };
    }
    h
}
pub fn built(h: &House, optical: &str) -> Result<(Model, SimulationStateHeader), String> {
    let (mut m, st) = build(h)?;
    let mut o = SolarOptions::new();
    o.set_n_solar_irradiance_points(2)
        .set_solar_ambient_divitions(20)
        .set_solar_sky_discretization(1)
        .set_optical_data_path(optical.to_string());
    m.solar_options = Some(o);
    Ok((m, st))
}
fn label(e: &E, h: &House, m: &Model) -> String {
    let _ = h;
    let sf = |i: usize| m.surfaces[i].name.clone();
    let fe = |i: usize| m.fenestrations[i].name.clone();
    let sp = |i: usize| m.spaces[i].name.clone();
    let (kind, who) = match e {
        E::Clothing => ("Clothing", String::new()),
        E::FenestrationOpenFraction(i) => ("FenestrationOpenFraction", fe(*i)),
        E::HeatingCoolingPowerConsumption(i) => ("HeatingCoolingPowerConsumption", m.hvacs[*i].name().to_string()),
        E::LuminairePowerConsumption(i) => ("LuminairePowerConsumption", m.luminaires[*i].name().to_string()),
        E::SurfaceFrontConvectionCoefficient(i) => ("SurfaceFrontConvectionCoefficient", sf(*i)),
        E::SurfaceBackConvectionCoefficient(i) => ("SurfaceBackConvectionCoefficient", sf(*i)),
        E::SurfaceFrontConvectiveHeatFlow(i) => ("SurfaceFrontConvectiveHeatFlow", sf(*i)),
        E::SurfaceBackConvectiveHeatFlow(i) => ("SurfaceBackConvectiveHeatFlow", sf(*i)),
        E::SurfaceFrontSolarIrradiance(i) => ("SurfaceFrontSolarIrradiance", sf(*i)),
        E::SurfaceBackSolarIrradiance(i) => ("SurfaceBackSolarIrradiance", sf(*i)),
        E::SurfaceFrontIRIrradiance(i) => ("SurfaceFrontIRIrradiance", sf(*i)),
        E::SurfaceBackIRIrradiance(i) => ("SurfaceBackIRIrradiance", sf(*i)),
        E::FenestrationFrontConvectionCoefficient(i) => ("FenestrationFrontConvectionCoefficient", fe(*i)),
        E::FenestrationBackConvectionCoefficient(i) => ("FenestrationBackConvectionCoefficient", fe(*i)),
        E::FenestrationFrontConvectiveHeatFlow(i) => ("FenestrationFrontConvectiveHeatFlow", fe(*i)),
        E::FenestrationBackConvectiveHeatFlow(i) => ("FenestrationBackConvectiveHeatFlow", fe(*i)),
        E::FenestrationFrontSolarIrradiance(i) => ("FenestrationFrontSolarIrradiance", fe(*i)),
        E::FenestrationBackSolarIrradiance(i) => ("FenestrationBackSolarIrradiance", fe(*i)),
        E::FenestrationFrontIRIrradiance(i) => ("FenestrationFrontIRIrradiance", fe(*i)),
        E::FenestrationBackIRIrradiance(i) => ("FenestrationBackIRIrradiance", fe(*i)),
        E::SpaceDryBulbTemperature(i) => ("SpaceDryBulbTemperature", sp(*i)),
        E::SpaceInfiltrationVolume(i) => ("SpaceInfiltrationVolume", sp(*i)),
        E::SpaceInfiltrationTemperature(i) => ("SpaceInfiltrationTemperature", sp(*i)),
        E::SpaceVentilationVolume(i) => ("SpaceVentilationVolume", sp(*i)),
        E::SpaceVentilationTemperature(i) => ("SpaceVentilationTemperature", sp(*i)),
        E::SpaceAirExchangeVolume(i, j) => ("SpaceAirExchangeVolume", format!("{}-{}", sp(*i), sp(*j))),
        E::SurfaceNodeTemperature(i, k) => ("SurfaceNodeTemperature", format!("{}-{}", sf(*i), k)),
        E::FenestrationNodeTemperature(i, k) => ("FenestrationNodeTemperature", format!("{}-{}", fe(*i), k)),
    };
    format!("{{\"{}\":\"{}\"}}", kind, who)
}
/// hourly (or not) mild weather: n records, `step` hours apart
pub fn mild(r: &mut Rng, n: usize, step: f64) -> Weather {
    let day = match r.below(4) {
        0 => 365. - r.range(0., 1.), // through new year
        _ => rnd_day(r),
    };
    let mut at = (day.floor() + *r.pick(&[0.0, 0.5, 1., 6., 23., 23.5]) / 24.) % 365.;
    let (t0, a) = (r.range(-5., 25.), r.range(0., 8.));
    let mut w = Weather { location: rnd_loc(r), ..Weather::default() };
    for _ in 0..n {
        let hour = (at % 1.) * 24.;
        let sun = (std::f64::consts::PI * (hour - 6.) / 12.).sin().max(0.);
        let (direct, diffuse) = (r.range(0., 800.) * sun, r.range(10., 250.) * sun);
        w.data.push(CurrentWeather {
            date: { let mut d = date_of(at); d.hour = (d.hour * 4.).round() / 4.; if d.hour >= 24. { d = date_of((at + 0.001) % 365.); d.hour = 0.; } d },
            dry_bulb_temperature: t0 + a * sun + r.range(-1., 1.),
            dew_point_temperature: t0 - 5.,
            global_horizontal_radiation: direct * 0.5 + diffuse,
            direct_normal_radiation: direct,
            diffuse_horizontal_radiation: diffuse,
            wind_speed: r.range(0., 12.),
            wind_direction: r.range(0., 6.28),
            horizontal_infrared_radiation_intensity: if r.chance(0.9) { Some(r.range(220., 420.)) } else { None },
            opaque_sky_cover: r.f(),
            relative_humidity: r.f(),
            pressure: 101325.,
        });
        at = (at + step / 24.) % 365.;
    }
    w
}
fn meta_of(l: &Location) -> MetaOptions {
    MetaOptions {
        latitude: l.latitude,
        longitude: l.longitude,
        standard_meridian: (l.timezone as f64 * 15.).to_radians(),
        elevation: l.elevation,
    }
}

/* ------------------------------------------------------------------ R01: results */

/// a sink that accepts few bytes at a time, and may fail
struct Sink {
    got: Arc<Mutex<Vec<u8>>>,
    max: usize,
    fail_after: Option<usize>,
    interrupt: bool,
    calls: usize,
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.interrupt && self.calls % 5 == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut g = self.got.lock().unwrap();
        if let Some(f) = self.fail_after {
            if g.len() >= f {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk full"));
            }
        }
        let n = b.len().min(self.max);
        g.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// sets powers according to how many times it has been called
struct Ctl {
    calls: Cell<usize>,
    plan: Vec<Vec<f64>>,
}
impl Ctl {
    fn set(&self, k: usize, m: &Model, st: &mut SimulationState) -> Result<(), String> {
        if self.plan.is_empty() {
            return Ok(());
        }
        let p = &self.plan[k % self.plan.len()];
        for (i, x) in m.hvacs.iter().enumerate() {
            match x {
                HVAC::ElectricHeater(x) => x.set_heating_cooling_consumption(st, p[i])?,
                HVAC::IdealHeaterCooler(x) => x.set_heating_cooling_consumption(st, p[i])?,
            }
        }
        for (i, x) in m.luminaires.iter().enumerate() {
            x.set_power_consumption(st, p[m.hvacs.len() + i])?;
        }
        Ok(())
    }
    fn script(&self, m: &Model) -> String {
        // a script remembers nothing between calls but the state: take the first of the plan
        let mut s = String::new();
        if let Some(p) = self.plan.first() {
            for i in 0..m.hvacs.len() {
                s += &format!("let h = hvac(\"hvac {}\"); h.power_consumption = {:?};\n", i, p[i]);
            }
            for i in 0..m.luminaires.len() {
                s += &format!("let l = luminaire({}); l.power_consumption = {:?};\n", i, p[m.hvacs.len() + i]);
            }
        }
        s
    }
}
impl SimpleControl for Ctl {
    fn control<M: Borrow<Model>>(&self, m: M, _p: &MultiphysicsModel, st: &mut SimulationState) -> Result<(), String> {
        let k = self.calls.get();
        self.calls.set(k + 1);
        self.set(k, m.borrow(), st)
    }
}
/// the dates the simulation has to go through
fn steps(w: &Weather, n: usize) -> (Vec<Date>, usize) {
    let (first, last) = (w.data[0].date, w.data[w.data.len() - 1].date);
    let dt = 3600. / n as f64;
    let year = 365. * 24.;
    let h0 = first.day_of_year() * 24.;
    let mut len = last.day_of_year() * 24. - h0;
    if len < -0.001 {
        len += year;
    }
    // the simulation stops just before the last record
    let count = (len * 3600. / dt + 1e-4).floor() as usize;
    let least = (((len - 0.1) * 3600. / dt - 1e-4).floor().max(0.)) as usize;
    let mut d = first;
    let mut out = vec![];
    for _ in 0..count {
        d.add_seconds(dt);
        out.push(d);
    }
    (out, least)
}
fn minutes_of(label: &str) -> Option<f64> {
    // MM/DD - H:MM
    let (md, hm) = label.split_once(" - ")?;
    let (m, d) = md.split_once('/')?;
    let (h, mi) = hm.split_once(':')?;
    if mi.len() != 2 || m.len() != 2 || d.len() != 2 {
        return None;
    }
    let date = Date { month: m.parse().ok()?, day: d.parse().ok()?, hour: 0. };
    if !(1..=12).contains(&date.month) || !(1..=31).contains(&date.day) {
        return None;
    }
    let (h, mi): (f64, f64) = (h.parse().ok()?, mi.parse().ok()?);
    if h > 24. || mi > 59. {
        return None;
    }
    Some(date.day_of_year() * 1440. + h * 60. + mi)
}
fn csv(c: &mut Case) -> R {
    let h = small_house(&mut c.rng);
    let n = [1usize, 1, 2, 3, 4, 6, 7, 10, 12, 61, 200][c.rng.below(11)];
    let n_real = n.min(60);
    let records = if n_real > 12 { 3 + c.rng.below(2) } else { 2 + c.rng.below(30) };
    let step = *c.rng.pick(&[1.0, 1.0, 1.0, 0.5, 3.0]);
    let w = mild(&mut c.rng, records, step);
    let optical = scratch(".json");
    let wfile = scratch(".sw");
    let text = serde_json::to_string(&w).map_err(|e| e.to_string())?;
    // numbers may lose their last digit when read
    let w: Weather = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    std::fs::write(&wfile, text).map_err(|e| e.to_string())?;
    let r = csv_with(c, &h, n, n_real, w, &optical, &wfile);
    let _ = std::fs::remove_file(&optical);
    let _ = std::fs::remove_file(&wfile);
    r
}
fn csv_with(c: &mut Case, h: &House, n: usize, n_real: usize, w: Weather, optical: &str, wfile: &str) -> R {
    // the expected one
    let (m, mut header) = built(h, optical)?;
    let mm = MultiphysicsModel::new(&meta_of(&w.location), (), &m, &mut header, n_real)?;
    let labels: Vec<String> = header.elements.iter().map(|e| label(e, h, &m)).collect();
    // what to report
    let mut asked = vec![];
    let mode = c.rng.below(4);
    let mut unknown = 0;
    if mode > 0 {
        for _ in 0..1 + c.rng.below(8) {
            if mode == 2 && c.rng.chance(0.4) {
                asked.push(Err(*c.rng.pick(&[
                    "{\"SpaceDryBulbTemperature\":\"no such space\"}",
                    "{\"SurfaceNodeTemperature\":\"wall 0-999\"}",
                    "{\"Clothing\":\"\"}",
                ])));
                unknown += 1;
            } else {
                asked.push(Ok(c.rng.below(labels.len())));
            }
        }
    }
    let mut cols: Vec<usize> = asked.iter().filter_map(|x| x.as_ref().ok().copied()).collect();
    if cols.is_empty() {
        cols = (0..labels.len()).collect();
    }
    let mut outputs = vec![];
    for x in &asked {
        let s = match x {
            Ok(i) => labels[*i].as_str(),
            Err(s) => s,
        };
        let o: Output = serde_json::from_str(s).map_err(|e| Fail::Inconclusive(format!("{}: {}", s, e)))?;
        outputs.push(o);
    }
    // control
    let kind = c.rng.below(4); // void, plan, rhai, people
    let nc = m.hvacs.len() + m.luminaires.len();
    let power = h.vols.iter().cloned().fold(f64::INFINITY, f64::min);
    let plan: Vec<Vec<f64>> = match kind {
        1 => (0..1 + c.rng.below(5)).map(|_| (0..nc).map(|_| (c.rng.f() * power * 100.).round() / 100.).collect()).collect(),
        2 => vec![(0..nc).map(|_| (c.rng.f() * power * 100.).round() / 100.).collect()],
        _ => vec![],
    };
    let ctl = Ctl { calls: Cell::new(0), plan };
    c.desc(format!(
        "n {}, weather from {:?} to {:?} ({} records), control {}, {:?}, asked {:?}, {:?}",
        n,
        w.data[0].date,
        w.data[w.data.len() - 1].date,
        w.data.len(),
        kind,
        ctl.plan,
        asked,
        h
    ));
    let mut sorted = w.clone();
    sorted.sort_data();
    let mut st = header.take_values().ok_or("no values")?;
    let mut mem = mm.allocate_memory(&st)?;
    let (dates, least) = steps(&w, n_real);
    let mut rows: Vec<Vec<f64>> = vec![];
    for (k, d) in dates.iter().enumerate() {
        ctl.set(k, &m, &mut st)?;
        mm.march(*d, &sorted, &m, &mut st, &mut mem)?;
        if header.elements.iter().zip(&st).any(|(e, v)| hot(e, *v)) {
            c.event("too hot", 1);
            return Ok(());
        }
        rows.push(cols.iter().map(|i| st[*i]).collect());
    }
    // the real one
    let (mut m2, mut header2) = built(h, optical)?;
    m2.outputs = outputs;
    let options = SimOptions { weather_file: Some(wfile.to_string()), n, ..SimOptions::default() };
    let got = Arc::new(Mutex::new(vec![]));
    let fail_after = if c.rng.chance(0.1) { Some(c.rng.below(2000)) } else { None };
    let sink = Sink {
        got: got.clone(),
        max: *c.rng.pick(&[1usize, 3, 7, 64, 1 << 20]),
        fail_after,
        interrupt: c.rng.chance(0.2),
        calls: 0,
    };
    let res = match kind {
        0 => run(m2, &mut header2, &options, sink, VoidControl {}),
        1 => {
            let r = run(&m2, &mut header2, &options, sink, CtlRef(&ctl));
            ensure!(
                (least..=dates.len()).contains(&ctl.calls.get()) || fail_after.is_some(),
                "the controller was called {} times in {} to {} steps",
                ctl.calls.get(),
                least,
                dates.len()
            );
            r
        }
        2 => {
            let f = scratch(".rhai");
            std::fs::write(&f, ctl.script(&m2)).map_err(|e| e.to_string())?;
            let r = run_rhai(m2, &mut header2, &options, &f, sink);
            let _ = std::fs::remove_file(&f);
            r
        }
        _ => {
            let o = OccupantBehaviour::new(&m2)?;
            run(&m2, &mut header2, &options, sink, o)
        }
    };
    let text = String::from_utf8(got.lock().unwrap().clone()).map_err(|_| "not text")?;
    if let Some(f) = fail_after {
        if text.len() >= f && res.is_err() {
            c.event("write failures reported", 1);
            c.seen(&format!("fail {}", f));
            return Ok(());
        }
        // everything fitted exactly
        ensure!(text.len() <= f || res.is_err(), "could not write everything, yet the simulation says it went well");
    }
    res.map_err(|e| Fail::Bad(format!("failed: {}", e)))?;
    ensure!(text.ends_with('\n'), "last line is incomplete");
    let lines: Vec<&str> = text.lines().collect();
    let head: Vec<&str> = lines[0].split(',').collect();
    let want: Vec<&str> = std::iter::once("Date").chain(cols.iter().map(|i| labels[*i].as_str())).collect();
    ensure!(head == want, "header is {:?}, not {:?}", head, want);
    let k = lines.len() - 1;
    ensure!((least..=dates.len()).contains(&k), "{} rows for {} to {} steps", k, least, dates.len());
    let dt = 60. / n_real as f64;
    let m0 = w.data[0].date.day_of_year() * 1440.;
    for (j, line) in lines[1..].iter().enumerate() {
        let f: Vec<&str> = line.split(',').collect();
        ensure!(f.len() == want.len(), "row {} has {} columns, header has {}: {}", j, f.len(), want.len(), line);
        let mi = minutes_of(f[0]).ok_or_else(|| Fail::Bad(format!("row {} has date '{}'", j, f[0])))?;
        let e = m0 + dt * (j + 1) as f64;
        let diff = (mi - e).rem_euclid(365. * 1440.);
        ensure!(diff.min(365. * 1440. - diff) <= 0.5 + 1e-4, "row {} is dated {}, {} minutes from the start", j, f[0], e - m0);
        if j >= rows.len() {
            continue;
        }
        for (q, i) in cols.iter().enumerate() {
            let x = rows[j][q];
            if x.is_nan() {
                continue;
            }
            let v: f64 = f[q + 1].parse().map_err(|_| Fail::Bad(format!("row {}: '{}' is not a number", j, f[q + 1])))?;
            ensure!(
                (v - x).abs() <= 0.00051 + 1e-9 * x.abs(),
                "row {} ({}): {} is reported as {}, but is {}",
                j,
                f[0],
                labels[*i],
                v,
                x
            );
            ensure!(f[q + 1].split_once('.').is_some_and(|d| d.1.len() == 3), "'{}' does not have three decimals", f[q + 1]);
        }
        c.event("rows", 1);
    }
    c.event(["void", "planned", "rhai", "people"][kind], 1);
    if unknown > 0 {
        c.event("unknown outputs", 1);
    }
    c.seen(&format!("{} {} {} {}", kind, n, cols.len(), k));
    Ok(())
}
struct CtlRef<'a>(&'a Ctl);
impl SimpleControl for CtlRef<'_> {
    fn control<M: Borrow<Model>>(&self, m: M, p: &MultiphysicsModel, st: &mut SimulationState) -> Result<(), String> {
        self.0.control(m, p, st)
    }
}
/// bad options are errors
fn refusals(c: &mut Case) -> R {
    let mut h = small_house(&mut c.rng);
    h.walls.truncate(1);
    let optical = scratch(".json");
    let mut w = mild(&mut c.rng, 3, 1.);
    let what = c.rng.below(7);
    let mut o = SimOptions { n: 1, ..SimOptions::default() };
    let mut ext = ".sw";
    let mut file = true;
    let mut text = None;
    match what {
        0 => o.n = 0,
        1 => w.data.clear(),
        2 => ext = ".json",
        3 => file = false,
        4 => text = Some("{\"location\":{}, \"data\":[]".to_string()),
        5 => {
            ext = ".epw";
            text = Some("LOCATION,X\n".to_string())
        }
        _ => {}
    }
    let wfile = scratch(ext);
    let text = text.unwrap_or(serde_json::to_string(&w).map_err(|e| e.to_string())?);
    if file {
        std::fs::write(&wfile, text).map_err(|e| e.to_string())?;
    }
    if what != 6 {
        o.weather_file = Some(wfile.clone());
    }
    c.desc(format!("refusal {}: n {}, file {:?} ({}, {} records)", what, o.n, o.weather_file, file, w.data.len()));
    let (m, mut header) = built(&h, &optical)?;
    let mut out: Vec<u8> = vec![];
    let r = run(&m, &mut header, &o, &mut out, VoidControl {});
    let (m, mut header) = built(&h, &optical)?;
    let r2 = run_rhai(m, &mut header, &o, &"/nonexistent.rhai".to_string(), &mut out);
    let _ = std::fs::remove_file(&wfile);
    let _ = std::fs::remove_file(&optical);
    ensure!(r.is_err(), "the simulation was accepted");
    ensure!(r2.is_err(), "the simulation (with script) was accepted");
    c.event("refusals", 1);
    c.seen(&format!("{}", what));
    Ok(())
}

/* ------------------------------------------------------------------ R02: determinism, resuming */

fn is_op(e: &E) -> bool {
    matches!(e, E::FenestrationOpenFraction(_) | E::HeatingCoolingPowerConsumption(_) | E::LuminairePowerConsumption(_))
}
fn hot(e: &E, v: f64) -> bool {
    match e {
        E::SpaceDryBulbTemperature(_) | E::SurfaceNodeTemperature(..) | E::FenestrationNodeTemperature(..) => !(-100. ..150.).contains(&v),
        _ => false,
    }
}
fn resume(c: &mut Case) -> R {
    let h = small_house(&mut c.rng);
    let n = [1usize, 2, 4, 6][c.rng.below(4)];
    let mut w = mild(&mut c.rng, 26, 1.);
    w.sort_data();
    let w0 = w.data[0].date;
    let optical = scratch(".json");
    c.desc(format!("n {}, from {:?}: {:?}", n, w0, h));
    let make = || -> Result<(Model, MultiphysicsModel, SimulationStateHeader), String> {
        let (m, mut header) = built(&h, &optical)?;
        let mm = MultiphysicsModel::new(&meta_of(&w.location), (), &m, &mut header, n)?;
        Ok((m, mm, header))
    };
    let _ = make()?; // leaves the optical data behind
    let r = (|| -> R {
        let (m, mm, mut header) = make()?;
        let (m2, mm2, header2) = make()?;
        ensure!(header.elements == header2.elements, "two instances of the same model have different states");
        ensure!(header.default_values == header2.default_values, "two instances of the same model start differently");
        let before = serde_json::to_string(&m).map_err(|e| e.to_string())?;
        let mut st = header.take_values().ok_or("no values")?;
        ensure!(st.len() == header.elements.len(), "{} values for {} elements", st.len(), header.elements.len());
        let nc = h.hvacs.len() + h.lums.len();
        let power = h.vols.iter().cloned().fold(f64::INFINITY, f64::min);
        let plan: Vec<Vec<f64>> = (0..7).map(|_| (0..nc).map(|_| c.rng.f() * power).collect()).collect();
        let ctl = Ctl { calls: Cell::new(0), plan };
        let mut total = 3 + c.rng.below(20 * n);
        let at = c.rng.below(total);
        let dt = 3600. / n as f64;
        let mut d = w0;
        let mut mem = mm.allocate_memory(&st)?;
        let mut saved = None;
        let mut trace: Vec<SimulationState> = vec![];
        let mut dates = vec![];
        for k in 0..total {
            d.add_seconds(dt);
            dates.push(d);
            ctl.set(k, &m, &mut st)?;
            if k == at {
                saved = Some(st.clone());
            }
            let old = st.clone();
            mm.march(d, &w, &m, &mut st, &mut mem)?;
            ensure!(st.len() == old.len(), "the state changed size");
            for (i, e) in header.elements.iter().enumerate() {
                ensure!(!is_op(e) || st[i] == old[i], "step {} changed {:?} from {} to {}", k, e, old[i], st[i]);
                ensure!(st[i].is_finite(), "step {}: {:?} is {}", k, e, st[i]);
            }
            trace.push(st.clone());
            // sealed and heated buildings leave the range in which the physics make sense
            if header.elements.iter().zip(&st).any(|(e, v)| hot(e, *v)) {
                c.event("too hot", 1);
                break;
            }
        }
        total = trace.len();
        if at >= total {
            return Ok(()); // left the range before
        }
        // another instance, with its own memory, from the saved state
        let mut st2 = saved.ok_or("not saved")?;
        let mut mem2 = mm2.allocate_memory(&st2)?;
        for k in at..total {
            ctl.set(k, &m2, &mut st2)?;
            mm2.march(dates[k], &w, &m2, &mut st2, &mut mem2)?;
            for i in 0..st2.len() {
                ensure!(
                    st2[i] == trace[k][i],
                    "resumed at step {}: at step {}, {:?} is {} instead of {}",
                    at,
                    k,
                    header.elements[i],
                    st2[i],
                    trace[k][i]
                );
            }
        }
        // the same instance again
        let mut st3 = if at == 0 { header2.default_values.clone().ok_or("no values")? } else { trace[at - 1].clone() };
        let mut mem3 = mm.allocate_memory(&st3)?;
        ctl.set(at, &m, &mut st3)?;
        mm.march(dates[at], &w, &m, &mut st3, &mut mem3)?;
        for i in 0..st3.len() {
            ensure!(st3[i] == trace[at][i], "the same instance, used: {:?} is {} instead of {}", header.elements[i], st3[i], trace[at][i]);
        }
        let after = serde_json::to_string(&m).map_err(|e| e.to_string())?;
        ensure!(before == after, "simulating changed the model");
        c.event("steps", total as u64);
        c.seen(&format!("{} {} {}", total, at, st2.len()));
        Ok(())
    })();
    let _ = std::fs::remove_file(&optical);
    r
}

/// the whole is the sun, then the air, then the heat
fn compose(c: &mut Case) -> R {
    use air::air_model::AirFlowModel;
    use heat::heat_model::ThermalModel;
    use light::solar_model::SolarModel;
    let h = small_house(&mut c.rng);
    let n = [1usize, 2, 3, 4, 6][c.rng.below(5)];
    let mut w = mild(&mut c.rng, 26, 1.);
    w.sort_data();
    let optical = scratch(".json");
    c.desc(format!("n {}, {:?}", n, h));
    let r = (|| -> R {
        let meta = meta_of(&w.location);
        let (m, mut header) = built(&h, &optical)?;
        let mm = MultiphysicsModel::new(&meta, (), &m, &mut header, n)?;
        ensure!(mm.dt == 3600. / n as f64 && mm.dt_subdivisions == n, "dt is {} ({})", mm.dt, mm.dt_subdivisions);
        let (m2, mut header2) = built(&h, &optical)?;
        let heat = ThermalModel::new(&meta, (), &m2, &mut header2, n)?;
        let air = AirFlowModel::new(&meta, (), &m2, &mut header2, n)?;
        let sun = SolarModel::new(&meta, m2.solar_options.clone().ok_or("no options")?, &m2, &mut header2, n)?;
        // whatever the order in which the parts create their elements
        let place: Vec<usize> = header
            .elements
            .iter()
            .map(|e| header2.elements.iter().position(|x| x == e).ok_or(format!("{:?} is not in the parts", e)))
            .collect::<Result<_, _>>()?;
        ensure!(place.len() == header2.elements.len(), "the whole has {} elements, its parts {}", place.len(), header2.elements.len());
        let mut st = header.take_values().ok_or("no values")?;
        let mut st2 = header2.take_values().ok_or("no values")?;
        let mut mem = mm.allocate_memory(&st)?;
        let mut a = heat.allocate_memory(&st2)?;
        #[allow(clippy::let_unit_value)]
        let mut b = air.allocate_memory(&st2)?;
        #[allow(clippy::let_unit_value)]
        let mut s = sun.allocate_memory(&st2)?;
        let mut d = w.data[0].date;
        for k in 0..2 + c.rng.below(12 * n) {
            d.add_seconds(3600. / n as f64);
            mm.march(d, &w, &m, &mut st, &mut mem)?;
            sun.march(d, &w, &m2, &mut st2, &mut s)?;
            air.march(d, &w, &m2, &mut st2, &mut b)?;
            heat.march(d, &w, &m2, &mut st2, &mut a)?;
            for i in 0..st.len() {
                let (x, y) = (st[i], st2[place[i]]);
                ensure!((x - y).abs() <= 1e-9 * (1. + y.abs()), "step {}: {:?} is {}, but sun, air and heat give {}", k, header.elements[i], x, y);
            }
            c.event("steps", 1);
            if header.elements.iter().zip(&st).any(|(e, v)| hot(e, *v)) {
                break;
            }
        }
        c.seen(&format!("{} {} {:?}", n, st.len(), w.data[0].date));
        Ok(())
    })();
    let _ = std::fs::remove_file(&optical);
    r
}

/* ------------------------------------------------------------------ K01: control scripts */

const SPACE: [&str; 7] = [
    "dry_bulb_temperature",
    "infiltration_volume",
    "infiltration_temperature",
    "ventilation_volume",
    "ventilation_temperature",
    "brightness",
    "loudness",
];
const SURF: [&str; 10] = [
    "front_temperature",
    "back_temperature",
    "front_convection_coefficient",
    "back_convection_coefficient",
    "front_convective_heat_flow",
    "back_convective_heat_flow",
    "front_incident_solar_irradiance",
    "back_incident_solar_irradiance",
    "front_ir_irradiance",
    "back_ir_irradiance",
];
/// where is it? none: the state does not have it
fn find(els: &[E], kind: usize, i: usize, prop: &str) -> Option<usize> {
    let nodes = |fen: bool| -> Vec<usize> {
        (0..els.len())
            .filter(|k| match &els[*k] {
                E::SurfaceNodeTemperature(s, _) => !fen && *s == i,
                E::FenestrationNodeTemperature(s, _) => fen && *s == i,
                _ => false,
            })
            .collect()
    };
    let e = match (kind, prop) {
        (0, "dry_bulb_temperature") => E::SpaceDryBulbTemperature(i),
        (0, "infiltration_volume") => E::SpaceInfiltrationVolume(i),
        (0, "infiltration_temperature") => E::SpaceInfiltrationTemperature(i),
        (0, "ventilation_volume") => E::SpaceVentilationVolume(i),
        (0, "ventilation_temperature") => E::SpaceVentilationTemperature(i),
        (0, _) => return None,
        (k, "front_temperature") => return nodes(k == 2).first().copied(),
        (k, "back_temperature") => return nodes(k == 2).last().copied(),
        (1, "front_convection_coefficient") => E::SurfaceFrontConvectionCoefficient(i),
        (1, "back_convection_coefficient") => E::SurfaceBackConvectionCoefficient(i),
        (1, "front_convective_heat_flow") => E::SurfaceFrontConvectiveHeatFlow(i),
        (1, "back_convective_heat_flow") => E::SurfaceBackConvectiveHeatFlow(i),
        (1, "front_incident_solar_irradiance") => E::SurfaceFrontSolarIrradiance(i),
        (1, "back_incident_solar_irradiance") => E::SurfaceBackSolarIrradiance(i),
        (1, "front_ir_irradiance") => E::SurfaceFrontIRIrradiance(i),
        (1, "back_ir_irradiance") => E::SurfaceBackIRIrradiance(i),
        (2, "front_convection_coefficient") => E::FenestrationFrontConvectionCoefficient(i),
        (2, "back_convection_coefficient") => E::FenestrationBackConvectionCoefficient(i),
        (2, "front_convective_heat_flow") => E::FenestrationFrontConvectiveHeatFlow(i),
        (2, "back_convective_heat_flow") => E::FenestrationBackConvectiveHeatFlow(i),
        (2, "front_incident_solar_irradiance") => E::FenestrationFrontSolarIrradiance(i),
        (2, "back_incident_solar_irradiance") => E::FenestrationBackSolarIrradiance(i),
        (2, "front_ir_irradiance") => E::FenestrationFrontIRIrradiance(i),
        (2, "back_ir_irradiance") => E::FenestrationBackIRIrradiance(i),
        (2, "open_fraction") => E::FenestrationOpenFraction(i),
        (3, "power_consumption") => E::LuminairePowerConsumption(i),
        (4, "power_consumption") => E::HeatingCoolingPowerConsumption(i),
        _ => unreachable!(),
    };
    els.iter().position(|x| *x == e)
}
const TYPES: [&str; 5] = ["space", "surface", "fenestration", "luminaire", "hvac"];
struct Target {
    who: String,
    prop: &'static str,
    /// None: getting it must fail
    at: Option<usize>,
}
fn target(r: &mut Rng, m: &Model, els: &[E], hostile: bool) -> Target {
    let kind = r.below(5);
    let names: Vec<String> = match kind {
        0 => m.spaces.iter().map(|x| x.name.clone()).collect(),
        1 => m.surfaces.iter().map(|x| x.name.clone()).collect(),
        2 => m.fenestrations.iter().map(|x| x.name.clone()).collect(),
        3 => m.luminaires.iter().map(|x| x.name().to_string()).collect(),
        _ => m.hvacs.iter().map(|x| x.name().to_string()).collect(),
    };
    let props: Vec<&'static str> = match kind {
        0 => SPACE.to_vec(),
        1 => SURF.to_vec(),
        2 => SURF.iter().copied().chain(["open_fraction"]).collect(),
        _ => vec!["power_consumption"],
    };
    let prop = *r.pick(&props);
    let t = TYPES[kind];
    if names.is_empty() || (hostile && r.chance(0.05)) {
        let who = match r.below(5) {
            0 => "\"nobody\"".to_string(),
            1 => format!("{}", names.len()),
            2 => "-1".to_string(),
            3 => format!("{}", i64::MAX),
            _ => format!("{}", i64::MIN),
        };
        return Target { who: format!("{}({})", t, who), prop, at: None };
    }
    let i = r.below(names.len());
    let who = if r.chance(0.5) { format!("\"{}\"", names[i]) } else { format!("{}", i) };
    Target { who: format!("{}({})", t, who), prop, at: find(els, kind, i, prop) }
}
fn scripts(c: &mut Case) -> R {
    let mut h = rnd_house(&mut c.rng, true);
    h.walls.truncate(3);
    if c.rng.chance(0.2) {
        h.walls.retain(|w| w.fen.is_none());
    }
    let (m, mut header) = build(&h)?;
    if c.rng.chance(0.3) {
        // openings, and other things no model creates yet
        for (i, s) in m.fenestrations.iter().enumerate().filter(|x| x.1.open_fraction_index().is_none()) {
            let k = header.push(E::FenestrationOpenFraction(i), 0.)?;
            s.set_open_fraction_index(k)?;
        }
    }
    if c.rng.chance(0.8) {
        let mut x = model::SolarOptions::new();
        x.set_n_solar_irradiance_points(1).set_solar_ambient_divitions(4).set_solar_sky_discretization(1);
        // thermal only, or all of them
        if c.rng.chance(0.5) {
            let _ = heat::heat_model::ThermalModel::new(&META, (), &m, &mut header, 1)?;
        } else {
            let mut m2 = m.clone();
            m2.solar_options = Some(x);
            let _ = MultiphysicsModel::new(&META, (), &m2, &mut header, 1)?;
        }
    }
    if c.rng.chance(0.3) {
        for (i, s) in m.spaces.iter().enumerate() {
            if s.ventilation_volume_index().is_none() {
                let k = header.push(E::SpaceVentilationVolume(i), 0.)?;
                s.set_ventilation_volume_index(k)?;
            }
            if s.ventilation_temperature_index().is_none() {
                let k = header.push(E::SpaceVentilationTemperature(i), 0.)?;
                s.set_ventilation_temperature_index(k)?;
            }
        }
    }
    let els = header.elements.clone();
    let n = els.len();
    let st: SimulationState = (0..n).map(|_| (c.rng.range(-1000., 1000.) * 8.).round() / 8.).collect();
    let mut want = st.clone();
    let hostile = c.rng.chance(0.4);
    let mut script = String::new();
    let mut ops: Vec<Box<dyn Fn(&mut SimulationState) -> bool>> = vec![]; // true: fails
    for _ in 0..1 + c.rng.below(12) {
        let a = target(&mut c.rng, &m, &els, hostile);
        if a.at.is_none() && !hostile {
            continue;
        }
        let at = a.at;
        match c.rng.below(5) {
            0 => {
                let v = c.rng.int(-5000, 5000);
                script += &format!("{{ let o = {}; o.{} = {}; }}\n", a.who, a.prop, v);
                ops.push(Box::new(move |s| at.map(|i| s[i] = v as f64).is_none()));
            }
            1 => {
                let v = (c.rng.range(-100., 100.) * 64.).round() / 64.;
                script += &format!("let o = {}; o.{} = {:?};\n", a.who, a.prop, v);
                ops.push(Box::new(move |s| at.map(|i| s[i] = v).is_none()));
            }
            2 => {
                let b = target(&mut c.rng, &m, &els, hostile);
                if b.at.is_none() && !hostile {
                    continue;
                }
                let f = b.at;
                script += &format!("let o = {};\nlet x = {}.{};\no.{} = x + 1.5;\n", a.who, b.who, b.prop, a.prop);
                ops.push(Box::new(move |s| match (at, f) {
                    (Some(i), Some(j)) => {
                        s[i] = s[j] + 1.5;
                        false
                    }
                    _ => true,
                }));
            }
            3 => {
                script += &format!("let p = {}; p.{} += 0.25;\n", a.who, a.prop);
                ops.push(Box::new(move |s| at.map(|i| s[i] += 0.25).is_none()));
            }
            _ => {
                let v = c.rng.range(-1000., 1000.);
                script += &format!("let o = {}; if o.{} > {:?} {{ o.{} = 7; }}\n", a.who, a.prop, v, a.prop);
                ops.push(Box::new(move |s| match at {
                    Some(i) => {
                        if s[i] > v {
                            s[i] = 7.;
                        }
                        false
                    }
                    None => true,
                }));
            }
        }
    }
    c.desc(format!("elements {:?}\nstate {:?}\nscript\n{}", els, st, script));
    let m = Arc::new(m);
    let (ctl, state) = RhaiControlScript::new(&m, st, &script, c.rng.chance(0.5)).map_err(|e| Fail::Bad(format!("refused: {}", e)))?;
    let calls = 1 + c.rng.below(3);
    for k in 0..calls {
        let mut fails = false;
        for o in &ops {
            if o(&mut want) {
                fails = true;
                break;
            }
        }
        let r = ctl.control();
        let got = state.lock().map_err(|_| "poisoned")?.clone();
        ensure!(got.len() == want.len(), "the state has {} elements, not {}", got.len(), want.len());
        for i in 0..n {
            ensure!(got[i] == want[i], "call {}: {:?} is {}, not {}", k, els[i], got[i], want[i]);
        }
        ensure!(!(fails && r.is_ok()), "call {}: something that is not there was accepted", k);
        ensure!(!(!fails && r.is_err()), "call {}: failed with {:?}", k, r);
        c.event(if fails { "scripts that fail" } else { "scripts that work" }, 1);
        if k + 1 < calls {
            // the simulation goes on
            let i = c.rng.below(n.max(1));
            if n > 0 {
                want[i] = 33.25;
                state.lock().map_err(|_| "poisoned")?[i] = 33.25;
            }
        }
    }
    c.seen(&script);
    Ok(())
}
/// what can never work
fn bad_scripts(c: &mut Case) -> R {
    let mut h = rnd_house(&mut c.rng, true);
    h.walls.truncate(1);
    let (m, mut header) = build(&h)?;
    let _ = heat::heat_model::ThermalModel::new(&META, (), &m, &mut header, 1)?;
    let st = header.take_values().ok_or("no values")?;
    let s = *c.rng.pick(&[
        "let x = ;",
        "let o = space(\"space 0\"); o.dry_bulb_temperature = ",
        "let o = space(\"space 0\"); o.colour = 3;",
        "let o = space(\"space 0\"); o.dry_bulb_temperature = \"warm\";",
        "let o = space(\"space 0\"); o.dry_bulb_temperature = true;",
        "let o = space(0.5); o.dry_bulb_temperature = 2;",
        "let o = espace(0); o.dry_bulb_temperature = 2;",
        "let x = space(0).power_consumption;",
        "throw \"no\";",
        "space();",
        "space(0, 1);",
        "let a = 9223372036854775807; let b = a + 1;",
    ]);
    c.desc(s.to_string());
    let m = Arc::new(m);
    match RhaiControlScript::new(&m, st.clone(), s, false) {
        Err(_) => {}
        Ok((ctl, state)) => {
            ensure!(ctl.control().is_err(), "accepted");
            let got = state.lock().map_err(|_| "poisoned")?.clone();
            ensure!(got == st, "the state changed");
        }
    }
    c.seen(s);
    c.event("bad scripts", 1);
    Ok(())
}

/* ------------------------------------------------------------------ K02: thermostats */

fn thermostats(c: &mut Case) -> R {
    let nz = 1 + c.rng.below(4);
    let mut h = rnd_house(&mut c.rng, false);
    h.vols = vec![50.; nz];
    h.inf = vec![None; nz];
    h.walls.clear();
    let (mut m, mut header) = build(&h)?;
    // (ideal, space, heating setpoint, heating power, cooling setpoint, cooling power)
    let mut units = vec![];
    let opt = |r: &mut Rng, v: f64| if r.chance(0.8) { Some(v) } else { None };
    for i in 0..1 + c.rng.below(5) {
        let ideal = c.rng.chance(0.6);
        let hs = c.rng.int(10, 25) as f64;
        let cs = hs + c.rng.int(0, 10) as f64;
        let r = &mut c.rng;
        let sp = if r.chance(0.85) { Some(r.below(nz)) } else { None };
        let v1 = r.range(1., 5000.).round();
        let v2 = r.range(1., 5000.).round();
        let u = (ideal, sp, opt(r, hs), opt(r, v1), opt(r, cs), opt(r, v2));
        let name = format!("hvac {}", i);
        if ideal {
            let mut x = model::hvac::IdealHeaterCooler::new(name);
            u.1.map(|s| x.set_target_space(space_name(s)));
            u.2.map(|v| x.set_heating_setpoint(v));
            u.3.map(|v| x.set_max_heating_power(v));
            u.4.map(|v| x.set_cooling_setpoint(v));
            u.5.map(|v| x.set_max_cooling_power(v));
            header.push(E::HeatingCoolingPowerConsumption(i), 0.)?;
            x.set_heating_cooling_consumption_index(i)?;
            m.hvacs.push(x.wrap());
        } else {
            let mut x = model::hvac::ElectricHeater::new(name);
            u.1.map(|s| x.set_target_space(space_name(s)));
            u.2.map(|v| x.set_heating_setpoint(v));
            u.3.map(|v| x.set_max_heating_power(v));
            header.push(E::HeatingCoolingPowerConsumption(i), 0.)?;
            x.set_heating_cooling_consumption_index(i)?;
            m.hvacs.push(x.wrap());
        }
        units.push(u);
    }
    for (i, s) in m.spaces.iter().enumerate() {
        let k = header.push(E::SpaceDryBulbTemperature(i), 20.)?;
        s.set_dry_bulb_temperature_index(k)?;
    }
    let els = header.elements.clone();
    let mut st = header.take_values().ok_or("no values")?;
    let (m0, mut header0) = build(&h)?;
    let mm = MultiphysicsModel::new(&META, (), &m0, &mut header0, 1)?; // not used by the controller
    let o = OccupantBehaviour::new(&m)?;
    c.desc(format!("(ideal, space, heating setpoint and power, cooling setpoint and power): {:?}", units));
    for round in 0..4 {
        for x in st.iter_mut() {
            *x = c.rng.int(5, 40) as f64;
        }
        let before = st.clone();
        o.control(&m, &mm, &mut st)?;
        let mut want = before.clone();
        for (i, u) in units.iter().enumerate() {
            let Some(s) = u.1 else { continue; };
            let t = before[els.iter().position(|e| *e == E::SpaceDryBulbTemperature(s)).ok_or("no zone")?];
            let k = els.iter().position(|e| *e == E::HeatingCoolingPowerConsumption(i)).ok_or("no hvac")?;
            let heat = if let (Some(sp), Some(p)) = (u.2, u.3) { Some(if t < sp { p } else { 0. }) } else { None };
            let cool = match (u.0, u.4, u.5) {
                (true, Some(sp), Some(p)) => Some(if t > sp { -p } else { 0. }),
                _ => None,
            };
            match (heat, cool) {
                (None, None) => {}
                (a, b) => {
                    want[k] = a.unwrap_or(0.) + b.unwrap_or(0.);
                    c.event(if want[k] > 0. { "heating" } else if want[k] < 0. { "cooling" } else { "off" }, 1);
                }
            }
        }
        for i in 0..st.len() {
            ensure!(st[i] == want[i], "round {}: {:?} went from {} to {}, not {}; state was {:?}", round, els[i], before[i], st[i], want[i], before);
        }
    }
    c.seen(&format!("{:?}", units));
    Ok(())
}

/* ------------------------------------------------------------------ X06: the state */

fn header_ops(c: &mut Case) -> R {
    let mut h = SimulationStateHeader::new();
    let mut stage = 0;
    let mut els: Vec<E> = vec![];
    let mut vals: Vec<f64> = vec![];
    let mut taken = false;
    let mut log = vec![];
    for _ in 0..1 + c.rng.below(40) {
        let e = match c.rng.below(8) {
            0 => E::Clothing,
            1 => E::FenestrationOpenFraction(c.rng.below(5)),
            2 => E::HeatingCoolingPowerConsumption(c.rng.below(5)),
            3 => E::LuminairePowerConsumption(c.rng.below(5)),
            4 => E::SpaceDryBulbTemperature(c.rng.below(5)),
            5 => E::SurfaceNodeTemperature(c.rng.below(5), c.rng.below(5)),
            6 => E::SpaceAirExchangeVolume(c.rng.below(5), c.rng.below(5)),
            _ => E::SurfaceFrontIRIrradiance(c.rng.below(5)),
        };
        // mostly in order
        let kind = match &e {
            E::Clothing => 0,
            e if is_op(e) => 1,
            _ => 2,
        };
        if kind == 2 && els.len() < 4 && c.rng.chance(0.8) {
            continue;
        }
        let v = c.rng.range(-10., 10.);
        log.push(format!("{:?}", e));
        c.desc(format!("{:?}, taken {}", log, taken));
        ensure!(e.is_personal() == (kind == 0) && e.is_operational() == (kind == 1) && e.is_physical() == (kind == 2), "wrong kind for {:?}", e);
        let r = h.push(e.clone(), v);
        if taken || kind < stage {
            ensure!(r.is_err(), "accepted {:?} at stage {} (taken: {})", e, stage, taken);
            c.event("refused", 1);
        } else {
            ensure!(r == Ok(els.len()), "{:?} is at {:?}, not {}", e, r, els.len());
            stage = stage.max(kind);
            els.push(e);
            vals.push(v);
            c.event("accepted", 1);
        }
        ensure!(h.elements == els && h.len() == els.len(), "elements are {:?}, not {:?}", h.elements, els);
        let ni = els.iter().filter(|e| **e == E::Clothing).count();
        let no = els.iter().filter(|e| is_op(e)).count();
        ensure!(h.n_individual() == ni && h.n_operational() == no, "counts {} {}, not {} {}", h.n_individual(), h.n_operational(), ni, no);
        if !taken {
            ensure!(h.default_values.as_ref() == Some(&vals), "values {:?}, not {:?}", h.default_values, vals);
        }
        if !taken && c.rng.chance(0.03) {
            ensure!(h.take_values().as_ref() == Some(&vals), "took other values");
            ensure!(h.take_values().is_none(), "took the values twice");
            taken = true;
        }
    }
    // copies
    let n = els.len();
    let a: Vec<f64> = (0..n).map(|i| i as f64).collect();
    for kind in 0..3 {
        let mut b: Vec<f64> = (0..n).map(|i| -1. - i as f64).collect();
        match kind {
            0 => h.copy_individual_state(&a, &mut b),
            1 => h.copy_operational_state(&a, &mut b),
            _ => h.copy_physical_state(&a, &mut b),
        }
        for i in 0..n {
            let k = match &els[i] {
                E::Clothing => 0,
                e if is_op(e) => 1,
                _ => 2,
            };
            let e = if k == kind { a[i] } else { -1. - i as f64 };
            ensure!(b[i] == e, "copying kind {}: element {} ({:?}) is {}, not {}", kind, i, els[i], b[i], e);
        }
    }
    c.seen(&format!("{:?}", log));
    Ok(())
}
/// every element of the state belongs to exactly one thing, which points at it
fn indices(c: &mut Case) -> R {
    let h = small_house(&mut c.rng);
    let optical = scratch(".json");
    c.desc(format!("{:?}", h));
    let (m, mut header) = built(&h, &optical)?;
    let r = MultiphysicsModel::new(&META, (), &m, &mut header, 1);
    let _ = std::fs::remove_file(&optical);
    r?;
    let els = header.elements.clone();
    let vals = header.take_values().ok_or("no values")?;
    ensure!(els.len() == vals.len(), "{} elements, {} values", els.len(), vals.len());
    let mut sorted: Vec<String> = els.iter().map(|e| format!("{:?}", e)).collect();
    sorted.sort();
    for p in sorted.windows(2) {
        ensure!(p[0] != p[1], "{} is twice in the state", p[0]);
    }
    let mut seen = vec![0; els.len()];
    let mut probe = |e: E, i: Option<usize>| -> R {
        match i {
            Some(i) => {
                ensure!(i < els.len() && els[i] == e, "{:?} points at {} ({:?})", e, i, els.get(i));
                seen[i] += 1;
            }
            None => ensure!(!els.contains(&e), "{:?} is in the state, but nothing points at it", e),
        }
        Ok(())
    };
    for (i, s) in m.spaces.iter().enumerate() {
        probe(E::SpaceDryBulbTemperature(i), s.dry_bulb_temperature_index())?;
        probe(E::SpaceInfiltrationVolume(i), s.infiltration_volume_index())?;
        probe(E::SpaceInfiltrationTemperature(i), s.infiltration_temperature_index())?;
        probe(E::SpaceVentilationVolume(i), s.ventilation_volume_index())?;
        probe(E::SpaceVentilationTemperature(i), s.ventilation_temperature_index())?;
    }
    let mut nodes: Vec<(usize, usize)> = vec![];
    for (i, s) in m.surfaces.iter().enumerate() {
        probe(E::SurfaceFrontConvectionCoefficient(i), s.front_convection_coefficient_index())?;
        probe(E::SurfaceBackConvectionCoefficient(i), s.back_convection_coefficient_index())?;
        probe(E::SurfaceFrontConvectiveHeatFlow(i), s.front_convective_heat_flow_index())?;
        probe(E::SurfaceBackConvectiveHeatFlow(i), s.back_convective_heat_flow_index())?;
        probe(E::SurfaceFrontSolarIrradiance(i), s.front_incident_solar_irradiance_index())?;
        probe(E::SurfaceBackSolarIrradiance(i), s.back_incident_solar_irradiance_index())?;
        probe(E::SurfaceFrontIRIrradiance(i), s.front_ir_irradiance_index())?;
        probe(E::SurfaceBackIRIrradiance(i), s.back_ir_irradiance_index())?;
        let (a, b) = (
            s.first_node_temperature_index().ok_or("a wall without first node")?,
            s.last_node_temperature_index().ok_or("a wall without last node")?,
        );
        for k in a..=b {
            ensure!(els.get(k) == Some(&E::SurfaceNodeTemperature(i, k - a)), "node {} of wall {} is {:?}", k - a, i, els.get(k));
        }
        nodes.push((a, b));
    }
    for (i, s) in m.fenestrations.iter().enumerate() {
        probe(E::FenestrationFrontConvectionCoefficient(i), s.front_convection_coefficient_index())?;
        probe(E::FenestrationBackConvectionCoefficient(i), s.back_convection_coefficient_index())?;
        probe(E::FenestrationFrontConvectiveHeatFlow(i), s.front_convective_heat_flow_index())?;
        probe(E::FenestrationBackConvectiveHeatFlow(i), s.back_convective_heat_flow_index())?;
        probe(E::FenestrationFrontSolarIrradiance(i), s.front_incident_solar_irradiance_index())?;
        probe(E::FenestrationBackSolarIrradiance(i), s.back_incident_solar_irradiance_index())?;
        probe(E::FenestrationFrontIRIrradiance(i), s.front_ir_irradiance_index())?;
        probe(E::FenestrationBackIRIrradiance(i), s.back_ir_irradiance_index())?;
        probe(E::FenestrationOpenFraction(i), s.open_fraction_index())?;
        let (a, b) = (
            s.first_node_temperature_index().ok_or("a window without first node")?,
            s.last_node_temperature_index().ok_or("a window without last node")?,
        );
        for k in a..=b {
            ensure!(els.get(k) == Some(&E::FenestrationNodeTemperature(i, k - a)), "node {} of window {} is {:?}", k - a, i, els.get(k));
        }
        nodes.push((a, b));
    }
    for (i, x) in m.luminaires.iter().enumerate() {
        probe(E::LuminairePowerConsumption(i), x.power_consumption_index())?;
    }
    for (i, x) in m.hvacs.iter().enumerate() {
        let k = match x {
            HVAC::ElectricHeater(x) => x.heating_cooling_consumption_index(),
            HVAC::IdealHeaterCooler(x) => x.heating_cooling_consumption_index(),
        };
        probe(E::HeatingCoolingPowerConsumption(i), k)?;
    }
    for (a, b) in nodes {
        for s in &mut seen[a..=b] {
            *s += 1;
        }
    }
    for (i, n) in seen.iter().enumerate() {
        ensure!(*n == 1, "element {} ({:?}) belongs to {} things", i, els[i], n);
    }
    let mut stage = 0;
    for e in &els {
        let k = if e.is_personal() { 0 } else if e.is_operational() { 1 } else { 2 };
        ensure!(k >= stage, "{:?} comes too late in the state", e);
        stage = k;
    }
    c.event("elements", els.len() as u64);
    c.seen(&format!("{:?}", els));
    Ok(())
}

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "R01",
        rule: "simulations of random buildings with .sw weather of 2-31 records (hourly or not, through new year), 1-200 steps per hour, four kinds of controller, and outputs asked for or not (some repeated, some that do not exist), written to sinks that take few bytes at a time, get interrupted or fill up: the results against our own stepping of the models, to three decimals; bad options are errors. Non-trivial: distinct (controller, steps, columns, rows).",
        assumptions: &["names without commas or quotes"],
        workloads: &[
            wl("csv", 400, 20000, csv).need(&[("rows", 1000), ("void", 10), ("planned", 10), ("rhai", 10), ("people", 10), ("unknown outputs", 10), ("write failures reported", 3)]),
            wl("refusals", 60, 600, refusals).need(&[("refusals", 50)]),
        ],
    },
    &Prop { id: "R02", rule: "random buildings, powers and weather: a simulation of up to 120 steps, another instance resumed from a saved state, and the first instance again, compared bit by bit; the same with its parts (sun, air, heat) marched in turn; powers and openings, and the model itself, are left alone. Non-trivial: distinct (steps, resumed at, size of the state).", assumptions: &["optical data read from the same file"], workloads: &[wl("resume", 300, 12000, resume).need(&[("steps", 2000)]), wl("compose", 200, 8000, compose).need(&[("steps", 2000)])] },
    &Prop {
        id: "K01",
        rule: "random control scripts (1-12 statements that read and write properties of elements by name and index, with numbers of both kinds, through variables and conditions; some about elements that do not exist or properties not in the state), run 1-3 times: the whole state after each against our own interpretation; what cannot work is an error and leaves the state alone. Non-trivial: distinct scripts.",
        assumptions: &[],
        workloads: &[
            wl("scripts", 1500, 30000, scripts).need(&[("scripts that fail", 100), ("scripts that work", 500)]),
            wl("bad_scripts", 100, 1000, bad_scripts).need(&[("bad scripts", 50)]),
        ],
    },
    &Prop { id: "K02", rule: "random HVACs (ideal or electric, with or without target space, setpoints and powers) in random states (with temperatures exactly at the setpoint): the whole state after control against the rules of a thermostat. Non-trivial: distinct sets of HVACs.", assumptions: &["heating setpoint not above the cooling setpoint"], workloads: &[wl("thermostats", 3000, 60000, thermostats).need(&[("heating", 500), ("cooling", 500), ("off", 500)])] },
    &Prop {
        id: "X06",
        rule: "random sequences of elements pushed to a state header, in and out of order, before and after taking the values, against a list; partial copies; and in random models, the state elements and the indices in the objects point at each other, one to one. Non-trivial: distinct sequences and states.",
        assumptions: &[],
        workloads: &[
            wl("header", 20000, 400000, header_ops).need(&[("accepted", 10000), ("refused", 5000)]),
            wl("indices", 150, 3000, indices).need(&[("elements", 1000)]),
        ],
    },
];
