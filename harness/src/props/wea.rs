//! Weather files, lookups, sun positions and sky models
use super::geo::rnd_dir;
use crate::core::*;
use crate::ensure;
use calendar::Date;
use geometry::Vector3D;
use std::f64::consts::PI;
use weather::*;

fn doy(d: &Date) -> f64 {
    const CUM: [f64; 12] = [0., 31., 59., 90., 120., 151., 181., 212., 243., 273., 304., 334.];
    CUM[d.month as usize - 1] + d.day as f64 - 1. + d.hour / 24.
}
pub fn date_of(n: f64) -> Date {
    const DPM: [f64; 12] = [31., 28., 31., 30., 31., 30., 31., 31., 30., 31., 30., 31.];
    let mut n = n.rem_euclid(365.);
    let mut month = 1;
    for m in 0..12 {
        if n < DPM[m] {
            month = m + 1;
            break;
        }
        n -= DPM[m];
    }
    Date { month: month as u8, day: n.floor() as u8 + 1, hour: (n - n.floor()) * 24. }
}
pub fn rnd_day(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => r.range(0., 1.2),
        1 => 364. + r.f() * 0.99999,
        2 => r.below(365) as f64 + r.below(24) as f64 / 24.,
        3 => r.below(365 * 24) as f64 / 24. + r.below(60) as f64 / 1440.,
        _ => r.range(0., 364.99999),
    }
}
type Field = (&'static str, fn(&CurrentWeather) -> f64);
const FIELDS: [Field; 10] = [
    ("dry bulb", |w| w.dry_bulb_temperature),
    ("dew point", |w| w.dew_point_temperature),
    ("global", |w| w.global_horizontal_radiation),
    ("direct", |w| w.direct_normal_radiation),
    ("diffuse", |w| w.diffuse_horizontal_radiation),
    ("wind speed", |w| w.wind_speed),
    ("infrared", |w| w.horizontal_infrared_radiation_intensity.unwrap_or(f64::NAN)),
    ("sky cover", |w| w.opaque_sky_cover),
    ("humidity", |w| w.relative_humidity),
    ("pressure", |w| w.pressure),
];
pub fn rnd_weather_at(r: &mut Rng, n: f64) -> CurrentWeather {
    CurrentWeather {
        date: date_of(n),
        dry_bulb_temperature: r.range(-20., 40.),
        dew_point_temperature: r.range(-20., 25.),
        global_horizontal_radiation: r.range(0., 1000.),
        direct_normal_radiation: r.range(0., 900.),
        diffuse_horizontal_radiation: r.range(0., 500.),
        wind_speed: r.range(0., 20.),
        wind_direction: r.range(0., 2. * PI),
        horizontal_infrared_radiation_intensity: Some(r.range(150., 450.)),
        opaque_sky_cover: r.f(),
        relative_humidity: r.f(),
        pressure: r.range(80000., 105000.),
    }
}

fn lookup(c: &mut Case) -> R {
    let n = match c.rng.below(5) {
        0 => 1,
        1 => 2,
        2 => 24,
        _ => c.rng.int(3, 200) as usize,
    };
    let clustered = c.rng.chance(0.3);
    let base = c.rng.range(0., 364.);
    let mut days: Vec<f64> = vec![];
    for _ in 0..n {
        let d = if clustered { (base + c.rng.range(0., 1.)).min(364.999) } else { rnd_day(&mut c.rng) };
        if days.iter().all(|x: &f64| (x - d).abs() > 1e-3) {
            days.push(d);
        }
    }
    if days.is_empty() {
        days.push(base);
    }
    let mut w = Weather::default();
    for d in &days {
        w.data.push(rnd_weather_at(&mut c.rng, *d));
    }
    w.sort_data();
    days.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for (d, x) in days.iter().zip(&w.data) {
        ensure!((doy(&x.date) - d).abs() < 1e-6, "sorting the data leaves {:?} where day {} is due", x.date, d);
    }
    let n = days.len();
    c.desc(format!("{} records from day {} to {}", n, days[0], days[n - 1]));
    c.seen(&format!("{} {} {}", n, days[0] as i64, days[n - 1] as i64));
    for k in 0..20 {
        let (kind, q) = match k % 5 {
            0 => ("record", days[c.rng.below(n)]),
            1 => {
                let i = c.rng.below(n);
                ("between", days[i] + (days[(i + 1).min(n - 1)] - days[i]) * c.rng.f())
            }
            2 => ("before", c.rng.f() * days[0]),
            3 => ("after", days[n - 1] + (364.999999 - days[n - 1]) * c.rng.f()),
            _ => ("any", rnd_day(&mut c.rng)),
        };
        let date = date_of(q);
        let q = doy(&date);
        let got = w.get_weather_data(date);
        // neighbours, over the year's end
        let mut lo = None;
        let mut hi = None;
        for (i, x) in w.data.iter().enumerate() {
            if doy(&x.date) <= q {
                lo = Some(i)
            }
            if doy(&x.date) >= q && hi.is_none() {
                hi = Some(i)
            }
        }
        let wrap = lo.is_none() || hi.is_none();
        let (lo, hi) = (lo.unwrap_or(n - 1), hi.unwrap_or(0));
        let (dl, dh) = (doy(&w.data[lo].date), doy(&w.data[hi].date));
        let gap = if wrap { dh + 365. - dl } else { dh - dl };
        let x = if gap < 1e-12 { 0. } else { (q - dl).rem_euclid(365.) / gap };
        for (name, f) in FIELDS {
            let (a, b) = (f(&w.data[lo]), f(&w.data[hi]));
            let want = a + x * (b - a);
            let tol = 1e-6 * (a.abs() + b.abs() + 1.);
            ensure!((f(&got) - want).abs() <= tol, "{} at day {} ({}): {} but the neighbours {} (day {}) and {} (day {}) give {}", name, q, kind, f(&got), a, dl, b, dh, want);
        }
        // wind direction: along the shorter arc
        let (a, b) = (w.data[lo].wind_direction, w.data[hi].wind_direction);
        let diff = (b - a + PI).rem_euclid(2. * PI) - PI;
        let err = (got.wind_direction - (a + x * diff) + PI).rem_euclid(2. * PI) - PI;
        if (diff.abs() - PI).abs() > 1e-3 {
            ensure!(err.abs() < 1e-6, "wind direction at day {}: {} between {} and {}, {} of the way", q, got.wind_direction, a, b, x);
            if (a - b).abs() > PI {
                c.event("wind_over_north", 1);
            }
        }
        let dd = (doy(&got.date) - q + 182.5).rem_euclid(365.) - 182.5;
        ensure!(n == 1 || dd.abs() < 1e-6, "asked for {:?}, got data for {:?}", date, got.date);
        c.event("lookups", 1);
        if wrap {
            c.event("over_new_year", 1);
        }
        if lo == hi {
            c.event("exact", 1);
        }
    }
    Ok(())
}
fn synthetic(c: &mut Case) -> R {
    let v: Vec<f64> = (0..11).map(|_| c.rng.range(1., 100.)).collect();
    let k = |i: usize| -> Box<dyn schedule::Schedule<f64>> { Box::new(schedule::ScheduleConstant::new(v[i])) };
    let s = SyntheticWeather {
        dry_bulb_temperature: k(0),
        dew_point_temperature: k(1),
        global_horizontal_radiation: k(2),
        direct_normal_radiation: k(3),
        diffuse_horizontal_radiation: k(4),
        wind_speed: k(5),
        wind_direction: k(6),
        horizontal_infrared_radiation_intensity: k(7),
        opaque_sky_cover: k(8),
        relative_humidity: k(9),
        pressure: k(10),
    };
    let d = date_of(rnd_day(&mut c.rng));
    let w = s.get_weather_data(d);
    let order = [0usize, 1, 2, 3, 4, 5, 7, 8, 9, 10];
    for ((name, f), i) in FIELDS.iter().zip(order) {
        ensure!(f(&w) == v[i], "{}: {} instead of {}", name, f(&w), v[i]);
    }
    ensure!(w.wind_direction == v[6] && w.date == d, "wind direction or date: {:?}", w);
    c.event("records", 1);
    c.seen(&format!("{:?}", d));
    Ok(())
}

// ---------------------------------------------------------------- EPW
struct Epw {
    text: String,
    loc: [String; 5],
    nums: [f64; 4],
    ground: Vec<(f64, [Option<f64>; 3], [f64; 12])>,
    lines: Vec<Vec<f64>>,
}
fn num(r: &mut Rng, a: f64, b: f64) -> (String, f64) {
    let s = match r.below(5) {
        0 => format!("{:.0}", r.range(a, b)),
        1 => format!("{:.1}", r.range(a, b)),
        2 => format!("{:.4}", r.range(a, b)),
        3 => format!("{:e}", r.range(a, b)),
        _ => format!("{}", r.range(a, b)),
    };
    let v = s.parse().unwrap();
    (s, v)
}
fn word(r: &mut Rng) -> String {
    let n = r.int(1, 12);
    let mut s: String = (0..n).map(|_| *r.pick(&['A', 'b', 'z', ' ', '-', '.', '_', '9', 'é', '/'])).collect();
    if r.chance(0.2) {
        s = format!("\"{}, {}\"", s, s);
    }
    s
}
fn rnd_epw(r: &mut Rng, nlines: usize) -> Epw {
    let eol = if r.chance(0.3) { "\r\n" } else { "\n" };
    let loc: [String; 5] = std::array::from_fn(|_| word(r));
    let mut ls: Vec<String> = vec![];
    let (la, lav) = num(r, -90., 90.);
    let (lo, lov) = num(r, -180., 180.);
    let tz = r.int(-12, 14);
    let (el, elv) = num(r, -300., 4000.);
    let tzs = if r.chance(0.5) { format!("{}", tz) } else { format!("{}.0", tz) };
    ls.push(format!("LOCATION,{},{},{},{},{}", loc.join(","), la, lo, tzs, el));
    if r.chance(0.7) {
        ls.push("DESIGN CONDITIONS,1,Climate Design Data 2009,,Heating,7,1.6,2,-0.2".into());
    }
    if r.chance(0.5) {
        ls.push("TYPICAL/EXTREME PERIODS,1,Summer,Extreme,2/10,2/16".into());
    }
    let mut ground = vec![];
    if r.chance(0.8) {
        let k = r.int(0, 4);
        let mut s = format!("GROUND TEMPERATURES,{}", k);
        for _ in 0..k {
            let (d, dv) = num(r, 0.2, 6.);
            s += &format!(",{}", d);
            let mut o = [None; 3];
            for x in o.iter_mut() {
                s += ",";
                if r.chance(0.4) {
                    let (t, v) = num(r, 0.1, 2000.);
                    s += &t;
                    *x = Some(v);
                }
            }
            let mut m = [0.; 12];
            for x in m.iter_mut() {
                let (t, v) = num(r, -20., 30.);
                s += &format!(",{}", t);
                *x = v;
            }
            ground.push((dv, o, m));
        }
        ls.push(s);
    }
    if r.chance(0.5) {
        ls.push("HOLIDAYS/DAYLIGHT SAVINGS,No,0,0,0".into());
    }
    if r.chance(0.6) {
        ls.push("COMMENTS 1,\"This, that, and the other. LOCATION unknown\"".into());
        ls.push("COMMENTS 2, -- nothing".into());
    }
    ls.push("DATA PERIODS,1,1,Data,Sunday, 1/ 1,12/31".into());
    let mut lines = vec![];
    for i in 0..nlines {
        let d = date_of((i / 24) as f64);
        let mut v = vec![r.int(1970, 2020) as f64, d.month as f64, d.day as f64, (i % 24 + 1) as f64, *r.pick(&[60., 0., 30.])];
        let mut s = v.iter().map(|x| format!("{}", x)).collect::<Vec<_>>();
        s.push("C9C9C9B8*0?9?9".into());
        v.push(1.);
        for j in 6..35 {
            let (a, b) = match j {
                6 | 7 => (-30., 45.),
                8 => (0., 100.),
                9 => (70000., 108000.),
                20 => (0., 360.),
                22 | 23 => (0., 10.),
                31 => (0., 99.),
                _ => (0., 1500.),
            };
            let (t, x) = if j == 31 {
                let k = r.int(0, 99);
                (format!("{}", k), k as f64)
            } else if j == 20 && r.chance(0.02) {
                ("999".to_string(), 999.)
            } else {
                num(r, a, b)
            };
            s.push(t);
            v.push(x);
        }
        ls.push(s.join(","));
        lines.push(v);
    }
    let mut text = ls.join(eol);
    if r.chance(0.8) {
        text += eol;
    }
    Epw { text, loc, nums: [lav, lov, tz as f64, elv], ground, lines }
}
fn epw_fields(l: &EPWWeatherLine) -> Vec<f64> {
    vec![
        l.year as f64,
        l.month as f64,
        l.day as f64,
        l.hour,
        l.minute as f64,
        1.,
        l.dry_bulb_temperature,
        l.dew_point_temperature,
        l.relative_humidity,
        l.atmospheric_station_pressure,
        l.extraterrestrial_horizontal_radiation,
        l.extraterrestrial_direct_normal_radiation,
        l.horizontal_infrared_radiation_intensity,
        l.global_horizontal_radiation,
        l.direct_normal_radiation,
        l.diffuse_horizontal_radiation,
        l.global_horizontal_illuminance,
        l.direct_normal_illuminance,
        l.diffuse_horizontal_illuminance,
        l.zenith_luminance,
        l.wind_direction,
        l.wind_speed,
        l.total_sky_cover,
        l.opaque_sky_cover,
        l.visibility,
        l.ceiling_height,
        l.present_weather_observation,
        l.present_weather_codes,
        l.precipitable_water,
        l.aerosol_optical_depth,
        l.snow_depth,
        l.last_day_since_last_snowfall as f64,
        l.albedo,
        l.liquid_precipitation_depth,
        l.liquid_precipitation_quantity,
    ]
}
fn with_file<T>(bytes: &[u8], ext: &str, f: impl FnOnce(&str) -> T) -> T {
    let p = scratch(ext);
    std::fs::write(&p, bytes).expect("scratch file");
    let r = f(&p);
    let _ = std::fs::remove_file(&p);
    r
}
fn epw_read(c: &mut Case) -> R {
    let n = c.rng.int(1, 60) as usize;
    let e = rnd_epw(&mut c.rng, n);
    c.desc(format!("{} lines: {}", n, &e.text.chars().take(300).collect::<String>()));
    let w = with_file(e.text.as_bytes(), ".epw", |p| EPWWeather::from_file(p.to_string()));
    let w = match w {
        Ok(w) => w,
        Err(m) => return Err(Fail::Bad(format!("a well-formed file is refused: {}", m))),
    };
    let l = &w.location;
    let got = [&l.city, &l.state, &l.country, &l.source, &l.wmo];
    for (g, t) in got.iter().zip(&e.loc) {
        ensure!(*g == t, "location reads '{}' instead of '{}'", g, t);
    }
    ensure!((l.latitude - e.nums[0].to_radians()).abs() < 1e-12 && (l.longitude - e.nums[1].to_radians()).abs() < 1e-12, "latitude/longitude: {} {}", l.latitude, l.longitude);
    ensure!(l.timezone as f64 == e.nums[2] && l.elevation == e.nums[3], "time zone {} elevation {}", l.timezone, l.elevation);
    ensure!(w.ground_temperature.len() == e.ground.len(), "{} ground temperature records instead of {}", w.ground_temperature.len(), e.ground.len());
    for (g, t) in w.ground_temperature.iter().zip(&e.ground) {
        ensure!(g.depth == t.0 && [g.soil_conductivity, g.soil_density, g.soil_specific_heat] == t.1 && g.average_monthly_temperature == t.2, "ground temperatures: {:?} instead of {:?}", g, t);
    }
    ensure!(w.data.len() == e.lines.len(), "{} records instead of {}", w.data.len(), e.lines.len());
    for (i, (g, t)) in w.data.iter().zip(&e.lines).enumerate() {
        for (j, (a, b)) in epw_fields(g).iter().zip(t).enumerate() {
            if j == 20 && *b > 360. {
                // missing
                ensure!((0. ..=360.).contains(a), "record {}: a missing wind direction reads {}", i, a);
                continue;
            }
            ensure!(a == b, "record {}, column {}: {} instead of {}", i, j + 1, a, b);
        }
    }
    // conversion
    let lines = w.data.clone();
    let sim: Weather = w.into();
    ensure!(sim.data.len() == lines.len(), "{} converted records instead of {}", sim.data.len(), lines.len());
    let mut prev = -1.;
    for (s, t) in sim.data.iter().zip(&lines) {
        let q = doy(&s.date);
        ensure!(s.date.month == t.month && s.date.day == t.day && (s.date.hour - t.hour).abs() < 1e-3 && s.date.hour < 24., "date {:?} from record {}/{} {}", s.date, t.month, t.day, t.hour);
        ensure!(q > prev, "records out of order");
        prev = q;
        let want = [
            t.dry_bulb_temperature,
            t.dew_point_temperature,
            t.global_horizontal_radiation,
            t.direct_normal_radiation,
            t.diffuse_horizontal_radiation,
            t.wind_speed,
            t.horizontal_infrared_radiation_intensity,
            t.opaque_sky_cover / 10.,
            t.relative_humidity / 100.,
            t.atmospheric_station_pressure,
        ];
        for ((name, f), b) in FIELDS.iter().zip(want) {
            ensure!((f(s) - b).abs() <= 1e-9 * (1. + b.abs()), "{} converts into {} instead of {}", name, f(s), b);
        }
        ensure!((s.wind_direction - t.wind_direction.to_radians()).abs() < 1e-9, "wind direction converts into {} instead of {} degrees", s.wind_direction, t.wind_direction);
        c.event("records", 1);
    }
    c.event("files", 1);
    c.seen(&format!("{} {} {}", e.text.len(), e.ground.len(), e.lines.len()));
    Ok(())
}
/// half-hour time zones (India, Iran, South Australia...)
fn epw_timezone(c: &mut Case) -> R {
    let e = rnd_epw(&mut c.rng, 1);
    let tz = c.rng.int(-11, 12) as f64 + *c.rng.pick(&[0., 0.5, 0.75]);
    let mut l: Vec<String> = e.text.lines().map(|x| x.to_string()).collect();
    l[0] = format!("LOCATION,a,b,c,d,e,10,20,{},30", tz);
    let w = with_file(l.join("\n").as_bytes(), ".epw", |p| EPWWeather::from_file(p.to_string())).map_err(Fail::Bad)?;
    let got = w.location.timezone as f64;
    c.event("files", 1);
    if got != tz {
        let m = format!("time zone {} reads {}", tz, got);
        if tz.fract() != 0. && got == tz.trunc() {
            return Err(Fail::Known("fractional-timezone-truncated", m));
        }
        return Err(Fail::Bad(m));
    }
    Ok(())
}
pub fn mutate_text(r: &mut Rng, b: &[u8], junk: &[&str]) -> Vec<u8> {
    let mut b = b.to_vec();
    for _ in 0..r.int(1, 3) {
        if b.is_empty() {
            break;
        }
        let i = r.below(b.len());
        match r.below(9) {
            0 => b.truncate(i),
            1 => {
                b.remove(i);
            }
            2 => b.insert(i, *r.pick(&[b',', b'\n', b'"', b'\r', 0, 255, b' ', b'x', b'-', b'{', b'}', b'[', b':'])),
            3 => b[i] = r.u64() as u8,
            4 => {
                let j = (i + r.below(40)).min(b.len());
                b.drain(i..j);
            }
            5 => {
                let j = (i + r.below(200)).min(b.len());
                let s: Vec<u8> = b[i..j].to_vec();
                b.splice(i..i, s);
            }
            6 => {
                let s = r.pick(junk).as_bytes().to_vec();
                b.splice(i..i, s);
            }
            7 => {
                b.drain(..i);
            }
            _ => {
                let j = r.below(b.len());
                b.swap(i, j);
            }
        }
    }
    b
}
fn epw_hostile(c: &mut Case) -> R {
    let n = c.rng.int(0, 4) as usize;
    let e = rnd_epw(&mut c.rng, n);
    let b = match c.rng.below(10) {
        0 => {
            let n = c.rng.below(30);
            (0..n).map(|_| *c.rng.pick(b"LOCATION,\n\"\r1.")).collect()
        }
        _ => mutate_text(&mut c.rng, e.text.as_bytes(), &["LOCATION,", "DATA PERIODS,", "GROUND TEMPERATURES,", ",,", "\n\n", "999999999999999999999", "-1", "nan", "1e999"]),
    };
    c.desc(String::from_utf8_lossy(&b).into_owned());
    let r = with_file(&b, ".epw", |p| EPWWeather::from_file(p.to_string()).map(|w| w.data.len()));
    match r {
        Ok(k) => {
            ensure!(k <= b.len(), "{} records in {} bytes", k, b.len());
            c.event("accepted", 1)
        }
        Err(_) => c.event("refused", 1),
    }
    c.seen(&format!("{:x}", fnv(&b)));
    Ok(())
}

// ---------------------------------------------------------------- sun
fn bb(n: f64) -> f64 {
    (n - 1.) * 2. * PI / 365.
}
fn ref_eot(n: f64) -> f64 {
    let b = bb(n);
    229.2 * (0.000075 + 0.001868 * b.cos() - 0.032077 * b.sin() - 0.014615 * (2. * b).cos() - 0.04089 * (2. * b).sin())
}
fn ref_decl(n: f64) -> f64 {
    let b = bb(n);
    0.006918 - 0.399912 * b.cos() + 0.070257 * b.sin() - 0.006758 * (2. * b).cos() + 0.000907 * (2. * b).sin() - 0.002697 * (3. * b).cos() + 0.00148 * (3. * b).sin()
}
/// sun vector (x: east, y: north, z: up) at the given solar time
fn ref_sun(lat: f64, n: f64) -> [f64; 3] {
    let d = ref_decl(n);
    let w = (24. * n.rem_euclid(1.) - 12.) * PI / 12.;
    [-d.cos() * w.sin(), lat.cos() * d.sin() - lat.sin() * d.cos() * w.cos(), lat.sin() * d.sin() + lat.cos() * d.cos() * w.cos()]
}
pub fn rnd_loc(r: &mut Rng) -> Location {
    let lat: f64 = match r.below(5) {
        0 => r.range(-23.5, 23.5),
        1 => r.range(60., 89.) * if r.chance(0.5) { 1. } else { -1. },
        2 => *r.pick(&[0., 23.45, -23.45, 45., -45., 66.5, -66.5]),
        _ => r.range(-65., 65.),
    };
    let lon = r.range(-180., 180.);
    let mut tz = (lon / 15.).round() + r.int(-2, 2) as f64;
    tz = tz.clamp(-12., 14.);
    Location { latitude: lat.to_radians(), longitude: lon.to_radians(), timezone: tz as i8, elevation: r.range(0., 3000.), ..Location::default() }
}
fn sun(c: &mut Case) -> R {
    let loc = rnd_loc(&mut c.rng);
    let solar = loc.get_solar();
    let lat = loc.latitude;
    for _ in 0..30 {
        let date = date_of(rnd_day(&mut c.rng));
        let t = doy(&date);
        let dmin = 4. * (loc.longitude.to_degrees() - loc.timezone as f64 * 15.) + ref_eot(t);
        let n = t + dmin / 1440.;
        let d = format!("latitude {} longitude {} time zone {} on {:?}", lat.to_degrees(), loc.longitude.to_degrees(), loc.timezone, date);
        c.desc(d.clone());
        let sn = solar.unwrap_solar_time(Time::Standard(t));
        ensure!((sn - n).abs() < 1e-9, "solar time is {} instead of {} (days); {}", sn, n, d);
        for (name, got, want) in [
            ("standard", solar.sun_position_from_standard_time(date), ref_sun(lat, n)),
            ("solar", solar.sun_position_from_solar_time(date), ref_sun(lat, t)),
        ] {
            if want[2].abs() < 1e-6 {
                c.event("horizon", 1);
                continue;
            }
            match got {
                None => {
                    ensure!(want[2] < 0., "no sun at {} time although its altitude is {} degrees; {}", name, want[2].asin().to_degrees(), d);
                    c.event("night", 1);
                }
                Some(v) => {
                    ensure!(want[2] > 0., "sun at {} time although it is {} degrees below the horizon; {}", name, -want[2].asin().to_degrees(), d);
                    let e = ((v.x - want[0]).powi(2) + (v.y - want[1]).powi(2) + (v.z - want[2]).powi(2)).sqrt();
                    let tol = if want[2] > 0.9998 { 0.021 } else { 2e-5 };
                    ensure!(e < tol, "sun at {} time is {} instead of {:?} ({} degrees off); {}", name, v, want, e.to_degrees(), d);
                    c.event("day", 1);
                    if lat.abs() > 1.16 {
                        c.event("polar_day", 1);
                    }
                }
            }
        }
        ensure!((solar.declination(t) - ref_decl(t)).abs() < 1e-9, "declination");
        ensure!((solar.equation_of_time(t) - ref_eot(t)).abs() < 1e-9, "equation of time");
        let b = bb(t);
        let ext = 1367.7 * (1.00011 + 0.034221 * b.cos() + 0.00128 * b.sin() + 0.000719 * (2. * b).cos() + 0.000077 * (2. * b).sin());
        ensure!((solar.normal_extraterrestrial_radiation(t) - ext).abs() < 0.01, "extraterrestrial radiation {} instead of {}", solar.normal_extraterrestrial_radiation(t), ext);
        // sunrise and sunset are where the altitude changes sign
        let day = t.floor() + 0.5;
        let cw = -lat.tan() * ref_decl(day).tan();
        if cw.abs() < 0.999 {
            if let (Time::Solar(rise), Time::Solar(set)) = solar.sunrise_sunset(day) {
                let h = cw.acos() / (2. * PI);
                ensure!((rise - (day - h)).abs() < 1e-9 && (set - (day + h)).abs() < 1e-9, "sunrise at {} and sunset at {} on day {}; {}", rise, set, day, d);
            } else {
                return Err(Fail::Bad("sunrise and sunset are not in solar time".into()));
            }
        }
        let back = solar.unwrap_standard_time(Time::Solar(n));
        ensure!((back - t).abs() < 2e-4, "standard to solar and back: {} instead of {}", back, t);
    }
    c.seen(&format!("{:.0} {:.0}", lat.to_degrees(), loc.longitude.to_degrees()));
    Ok(())
}

// ---------------------------------------------------------------- sky
/// a daytime location, date and weather
pub fn daytime(c: &mut Case) -> Option<(Solar, Date, [f64; 3])> {
    for _ in 0..50 {
        let loc = rnd_loc(&mut c.rng);
        let solar = loc.get_solar();
        let date = date_of(rnd_day(&mut c.rng));
        if let Some(v) = solar.sun_position_from_standard_time(date) {
            if v.z > 0.02 {
                return Some((solar, date, [v.x, v.y, v.z]));
            }
        }
    }
    None
}
fn sky(c: &mut Case) -> R {
    let Some((solar, date, s)) = daytime(c) else {
        return Ok(());
    };
    let mf = *c.rng.pick(&[1usize, 1, 2, 3, 4]);
    let r = ReinhartSky::new(mf);
    // plausible skies: diffuse fractions around those of Erbs et al.
    let kt: f64 = c.rng.range(0.05, 0.8);
    let ghi = 1367. * s[2] * kt;
    let erbs = if kt <= 0.22 { 1. - 0.09 * kt } else { 0.9511 - 0.1604 * kt + 4.388 * kt.powi(2) - 16.638 * kt.powi(3) + 12.336 * kt.powi(4) };
    let dif = if kt < 0.5 && c.rng.chance(0.2) { ghi } else { ghi * (erbs * c.rng.range(0.75, 1.25)).clamp(0.05, 1.) };
    let dir = (ghi - dif) / s[2];
    let mut w = rnd_weather_at(&mut c.rng, 0.);
    w.date = date;
    w.direct_normal_radiation = dir;
    w.diffuse_horizontal_radiation = dif;
    let albedo = c.rng.range(0., 0.6);
    let d = format!("mf {} date {:?} sun {:?} direct {} diffuse {} dew point {} albedo {}", mf, date, s, dir, dif, w.dew_point_temperature, albedo);
    c.desc(d.clone());
    let get = |units, al, sky, sun| PerezSky::gen_sky_vec(mf, &solar, date, w, units, al, sky, sun).map_err(Fail::Bad);
    let vals = |m: &matrix::Matrix| -> Result<Vec<f64>, Fail> {
        let mut v = vec![];
        for i in 0..r.n_bins {
            let x = m.get(i, 0).map_err(Fail::Bad)?;
            ensure!(x.is_finite() && x >= 0., "patch {} has a radiance of {}; {}", i, x, d);
            v.push(x)
        }
        Ok(v)
    };
    // sun only: the four patches hold the direct normal radiation
    let only_sun = vals(&get(SkyUnits::Solar, 0., false, true)?)?;
    let mut total = 0.;
    let mut n = 0;
    let mut mean = [0.; 3];
    for i in 1..r.n_bins {
        if only_sun[i] > 0. {
            let e = only_sun[i] * r.bin_solid_angle(i);
            total += e;
            n += 1;
            let b = r.bin_dir(i);
            mean = [mean[0] + b.x * e, mean[1] + b.y * e, mean[2] + b.z * e];
        }
    }
    if dir > 1e-3 {
        ensure!(only_sun[0] == 0. && (1..=4).contains(&n), "the sun lights {} patches (ground: {}); {}", n, only_sun[0], d);
        ensure!((total - dir).abs() < 1e-6 * dir, "the sun patches hold {} of {} W/m2; {}", total, dir, d);
        let l = (mean[0].powi(2) + mean[1].powi(2) + mean[2].powi(2)).sqrt();
        let cs = (mean[0] * s[0] + mean[1] * s[1] + mean[2] * s[2]) / l;
        ensure!(cs > (14f64 / mf as f64).to_radians().cos(), "the sun patches are {} degrees off the sun; {}", cs.acos().to_degrees(), d);
        c.event("sun", 1);
    } else if dir == 0. {
        ensure!(n == 0 && only_sun[0] == 0., "sun without direct radiation; {}", d);
    }
    // sky only: the horizontal irradiance is the diffuse radiation
    let only_sky = vals(&get(SkyUnits::Solar, 0., true, false)?)?;
    let mut total = 0.;
    for i in 1..r.n_bins {
        total += only_sky[i] * r.bin_solid_angle(i) * r.bin_dir(i).z;
    }
    let tol = if mf == 1 { 1e-6 } else { 0.15 };
    ensure!(only_sky[0] == 0. && (total - dif).abs() <= tol * dif, "the sky gives {} of {} W/m2 of diffuse radiation; {}", total, dif, d);
    // ground only
    let ground = vals(&get(SkyUnits::Solar, albedo, false, false)?)?;
    let want = albedo * (dif + dir * s[2]) / PI;
    ensure!((ground[0] - want).abs() < 1e-6 * (1. + want), "the ground has a radiance of {} instead of {}; {}", ground[0], want, d);
    ensure!(ground[1..].iter().all(|x| *x == 0.), "neither sky nor sun, but patches glow; {}", d);
    // together
    let all_m = get(SkyUnits::Solar, albedo, true, true)?;
    let all = vals(&all_m)?;
    for i in 0..r.n_bins {
        let want = only_sun[i] + only_sky[i] + ground[i];
        ensure!((all[i] - want).abs() <= 1e-9 * (1. + want), "patch {}: {} but sun, sky and ground give {}; {}", i, all[i], want, d);
    }
    // recycling the vector does not change the result
    let mut v = matrix::Matrix::new(c.rng.range(0., 1000.), r.n_bins, 1);
    PerezSky::update_sky_vec(&mut v, mf, &solar, date, w, SkyUnits::Solar, albedo, true, true).map_err(Fail::Bad)?;
    for i in 0..r.n_bins {
        let x = v.get(i, 0).map_err(Fail::Bad)?;
        ensure!((x - all[i]).abs() <= 1e-9 * (1. + all[i]), "patch {} is {} when updating a used vector, {} in a new one; {}", i, x, all[i], d);
    }
    let mut v = matrix::Matrix::new(0., r.n_bins + 1, 1);
    ensure!(PerezSky::update_sky_vec(&mut v, mf, &solar, date, w, SkyUnits::Solar, albedo, true, true).is_err(), "a vector of the wrong size is accepted");
    // continuity around the sun
    let f = PerezSky::get_sky_func_standard_time(SkyUnits::Solar, &solar, date, w.dew_point_temperature, dif, dir);
    let sv = Vector3D::new(s[0], s[1], s[2]);
    let a = f(sv);
    let e = rnd_dir(&mut c.rng);
    let near = (sv + e * 1e-6).get_normalized();
    let b = f(near);
    ensure!(a.is_finite() && a >= 0. && (a - b).abs() <= 1e-3 * (1. + a.max(b)), "the sky is {} towards the sun but {} a millionth of a radian away; {}", a, b, d);
    // visible units
    let vis = get(SkyUnits::Visible, albedo, true, true)?;
    for i in 0..r.n_bins {
        let x = vis.get(i, 0).map_err(Fail::Bad)?;
        ensure!(x.is_finite(), "patch {} has a luminance of {}; {}", i, x, d);
    }
    c.event("skies", 1);
    c.seen(&format!("{:.1} {:.0} {:.0} {}", s[2], dir / 50., dif / 50., mf));
    Ok(())
}
fn night(c: &mut Case) -> R {
    let loc = rnd_loc(&mut c.rng);
    let solar = loc.get_solar();
    let date = date_of(rnd_day(&mut c.rng));
    let mut w = rnd_weather_at(&mut c.rng, 0.);
    w.date = date;
    let dark = c.rng.chance(0.5);
    if dark {
        w.direct_normal_radiation = 0.;
        w.diffuse_horizontal_radiation = 0.;
    } else if solar.sun_position_from_standard_time(date).is_some() {
        return Ok(());
    }
    let mut v = matrix::Matrix::new(if c.rng.chance(0.5) { 0. } else { 7. }, ReinhartSky::n_bins(1), 1);
    PerezSky::update_sky_vec(&mut v, 1, &solar, date, w, SkyUnits::Solar, 0.2, true, true).map_err(Fail::Bad)?;
    for i in 0..ReinhartSky::n_bins(1) {
        ensure!(v.get(i, 0).map_err(Fail::Bad)? == 0., "patch {} glows at night", i);
    }
    c.event("nights", 1);
    Ok(())
}
const TREGENZA: [usize; 7] = [30, 30, 24, 24, 18, 12, 6];
fn reinhart(c: &mut Case) -> R {
    let mf = 1 + (c.idx as usize) % 8;
    let r = ReinhartSky::new(mf);
    c.desc(format!("mf {}", mf));
    ensure!(r.n_bins == 144 * mf * mf + 2 && ReinhartSky::n_bins(mf) == r.n_bins, "mf {}: {} or {} patches", mf, r.n_bins, ReinhartSky::n_bins(mf));
    let h = (PI / 2.) / (7. * mf as f64 + 0.5);
    // reference
    let bin_of = |v: Vector3D| -> Option<usize> {
        if v.z < 0. {
            return Some(0);
        }
        let alt = v.z.clamp(0., 1.).asin();
        let x = alt / h;
        if (x - x.round()).abs() < 1e-6 && x > 0.5 {
            return None;
        }
        let row = x.floor() as usize;
        if row >= 7 * mf {
            return Some(144 * mf * mf + 1);
        }
        let nr = TREGENZA[row / mf] * mf;
        let before: usize = (0..row).map(|k| TREGENZA[k / mf] * mf).sum();
        let mut az = v.x.atan2(v.y);
        if az < 0. {
            az += 2. * PI;
        }
        let k = az / (2. * PI) * nr as f64 + 0.5;
        if (k - k.round()).abs() < 1e-6 {
            return None;
        }
        Some(1 + before + (k.floor() as usize) % nr)
    };
    if c.idx < 8 {
        let mut total = 0.;
        let mut proj = 0.;
        for i in 0..r.n_bins {
            let d = r.bin_dir(i);
            ensure!((d.length() - 1.).abs() < 1e-9, "direction of patch {}: {}", i, d);
            ensure!(r.dir_to_bin(d) == i, "mf {}: the centre of patch {} is in patch {}", mf, i, r.dir_to_bin(d));
            ensure!(bin_of(d) == Some(i), "mf {}: the centre of patch {} should be in patch {:?}", mf, i, bin_of(d));
            let o = r.bin_solid_angle(i);
            ensure!(o > 0., "patch {} has a solid angle of {}", i, o);
            if i > 0 {
                total += o;
                proj += o * d.z;
                // exact solid angle
                let row_alt = d.z.asin();
                let want = if i == r.n_bins - 1 {
                    2. * PI * (1. - (h / 2.).cos())
                } else {
                    let row = (row_alt / h).floor();
                    2. * PI * (((row + 1.) * h).sin() - (row * h).sin()) / (TREGENZA[row as usize / mf] * mf) as f64
                };
                ensure!((o - want).abs() < 1e-9, "mf {}: patch {} has a solid angle of {} instead of {}", mf, i, o, want);
            }
        }
        ensure!((total - 2. * PI).abs() < 1e-9, "mf {}: the sky has {} steradians", mf, total);
        ensure!((proj - PI).abs() < 0.02, "mf {}: a uniform sky gives {} times its radiance", mf, proj);
        ensure!((r.bin_solid_angle(0) - 2. * PI).abs() < 1e-9 && r.bin_dir(0).z == -1., "the ground patch");
        c.event("partitions", 1);
    }
    for _ in 0..300 {
        let mut v = rnd_dir(&mut c.rng);
        match c.rng.below(8) {
            0 => v = Vector3D::new(0., if c.rng.chance(0.5) { 1. } else { -1. }, 0.),
            1 => v = (v + Vector3D::new(0., 0., 20. * c.rng.f())).get_normalized(),
            2 => v = Vector3D::new(v.x, v.y, 1e-7).get_normalized(),
            _ => {}
        }
        let got = r.dir_to_bin(v);
        if let Some(want) = bin_of(v) {
            ensure!(got == want, "mf {}: direction {} is in patch {} instead of {}", mf, v, got, want);
            c.event("directions", 1);
        }
        ensure!(got < r.n_bins, "patch {} of {}", got, r.n_bins);
        c.seen(&format!("{} {}", mf, got));
    }
    Ok(())
}

// ---------------------------------------------------------------- radiation from clouds
fn clouds(c: &mut Case) -> R {
    let loc = rnd_loc(&mut c.rng);
    let start = rnd_day(&mut c.rng);
    let n = c.rng.int(1, 40) as usize;
    let mut w = Weather { location: loc.clone(), data: vec![] };
    let has = c.rng.chance(0.3);
    let mut temp = c.rng.range(-10., 35.);
    for k in 0..n {
        let mut x = rnd_weather_at(&mut c.rng, (start + k as f64 / 24.).min(364.9999));
        temp += c.rng.range(-3., 3.);
        if c.rng.chance(0.05) {
            temp -= c.rng.range(5., 25.);
        }
        x.dry_bulb_temperature = temp;
        if c.rng.chance(0.3) {
            x.opaque_sky_cover = *c.rng.pick(&[0., 1.]);
            x.relative_humidity = *c.rng.pick(&[0., 1.]);
        }
        if !has {
            x.global_horizontal_radiation = 0.;
            x.direct_normal_radiation = 0.;
            x.diffuse_horizontal_radiation = 0.;
        }
        w.data.push(x);
    }
    let before = w.clone();
    w.fill_solar_radiation_data().map_err(Fail::Bad)?;
    ensure!(w.data.len() == n, "{} records left of {}", w.data.len(), n);
    // only the weather counts, not the radiation that was there
    let mut other = before.clone();
    for x in other.data.iter_mut() {
        x.global_horizontal_radiation = c.rng.range(0., 1000.);
        x.direct_normal_radiation = c.rng.range(0., 1000.);
        x.diffuse_horizontal_radiation = c.rng.range(0., 1000.);
    }
    other.fill_solar_radiation_data().map_err(Fail::Bad)?;
    for (a, b) in other.data.iter().zip(&w.data) {
        ensure!(
            a.global_horizontal_radiation == b.global_horizontal_radiation && a.direct_normal_radiation == b.direct_normal_radiation && a.diffuse_horizontal_radiation == b.diffuse_horizontal_radiation,
            "{:?}: the radiation estimated depends on that recorded before: {:?} and {:?}", loc, a, b
        );
    }
    let solar = loc.get_solar();
    for (a, b) in before.data.iter().zip(&w.data) {
        let (dni, dhi, ghi) = (b.direct_normal_radiation, b.diffuse_horizontal_radiation, b.global_horizontal_radiation);
        let d = format!("{:?} with {:?}: direct {} diffuse {} global {}", loc, a, dni, dhi, ghi);
        c.desc(d.clone());
        ensure!(a.date == b.date && a.dry_bulb_temperature == b.dry_bulb_temperature && a.pressure == b.pressure && a.wind_direction == b.wind_direction, "other data changed; {}", d);
        ensure!(dni.is_finite() && dhi.is_finite() && ghi.is_finite() && dni >= 0. && dhi >= 0. && ghi >= 0., "impossible radiation; {}", d);
        match solar.sun_position_from_standard_time(a.date) {
            None => {
                ensure!(dni == 0. && dhi == 0. && ghi == 0., "radiation at night; {}", d);
                c.event("night", 1);
            }
            Some(s) => {
                ensure!((ghi - dhi - dni * s.z).abs() <= 1e-6 * (1. + ghi), "global radiation is not the diffuse plus the projected direct (altitude sine {}); {}", s.z, d);
                ensure!(dni <= 1500., "direct radiation exceeds the extraterrestrial one; {}", d);
                c.event("day", 1);
                if ghi > 0. {
                    c.event("lit", 1);
                }
                if dni > 0. {
                    c.event("direct", 1);
                }
            }
        }
    }
    c.seen(&format!("{:.0} {}", start, n));
    Ok(())
}

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "W01",
        rule: "weather records at random, clustered or few dates, looked up at records, between them, and before the first and after the last one; every field compared with the linear interpolation between the cyclic neighbours. Non-trivial: distinct (number of records, extent).",
        assumptions: &["two records never share a date"],
        workloads: &[
            wl("lookup", 3000, 40000, lookup).need(&[("lookups", 30000), ("over_new_year", 10000), ("exact", 3000), ("wind_over_north", 3000)]),
            wl("synthetic", 300, 3000, synthetic),
        ],
    },
    &Prop {
        id: "W02",
        rule: "random EPW files written field by field (number formats, quoted names, optional headers, CRLF, missing final newline), read back and compared column by column; and mutated, truncated or garbage files. Non-trivial: distinct files.",
        assumptions: &["the text of each field is compared as written, including quotes"],
        workloads: &[
            wl("epw_read", 1500, 20000, epw_read).need(&[("records", 20000)]),
            wl("epw_timezone", 60, 600, epw_timezone).need(&[("files", 20)]),
            wl("epw_hostile", 4000, 100000, epw_hostile).need(&[("accepted", 20), ("refused", 300)]),
        ],
    },
    &Prop {
        id: "W03",
        rule: "random locations (tropics to 89 degrees, time zones up to two hours away from the longitude) and dates; solar time, declination, sunrise, sunset and sun vector compared with an independent spherical-astronomy computation. Non-trivial: distinct (latitude, longitude).",
        assumptions: &["latitudes within 1 degree of a pole and altitudes within 1e-6 rad of the horizon are not judged"],
        workloads: &[wl("sun", 2000, 40000, sun).need(&[("day", 20000), ("night", 20000), ("polar_day", 500)])],
    },
    &Prop {
        id: "W04",
        rule: "sky vectors for random daytimes, radiation (clear to overcast) and discretizations 1-4: sun patches hold the direct radiation and surround the sun, the sky gives the diffuse radiation, the ground reflects the global; additive, finite, non-negative, independent of the recycled vector; dark at night. Non-trivial: distinct (altitude, direct, diffuse, mf).",
        assumptions: &["for mf > 1 the diffuse total may differ by 15% (the sky is normalised on the 145 Tregenza patches)"],
        workloads: &[wl("sky", 1500, 20000, sky).need(&[("skies", 1000), ("sun", 700)]), wl("night", 500, 5000, night).need(&[("nights", 200)])],
    },
    &Prop {
        id: "W05",
        rule: "for mf 1-8: number of patches, every patch's centre, solid angle and inverse mapping, and random directions (horizon, zenith, due north) against an independent partition. Non-trivial: distinct (mf, patch).",
        assumptions: &["directions within 1e-6 of a border between patches are only checked to map to some patch"],
        workloads: &[wl("reinhart", 800, 20000, reinhart).need(&[("partitions", 8), ("directions", 100000)])],
    },
    &Prop {
        id: "W06",
        rule: "random sequences of hourly weather (temperature jumps, clear, overcast, dry, saturated; with or without previous radiation) at random places; radiation after filling is finite, non-negative, zero at night, balanced, and the same whatever the radiation was before. Non-trivial: distinct (date, length).",
        assumptions: &["relative humidity and sky cover between 0 and 1"],
        workloads: &[wl("clouds", 3000, 60000, clouds).need(&[("day", 10000), ("night", 5000), ("lit", 5000), ("direct", 2000)])],
    },
];
