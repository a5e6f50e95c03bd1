//! Calendar: date arithmetic and simulation-period iteration
use crate::core::*;
use crate::ensure;
use calendar::{Date, Period};

const DPM: [u32; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];

fn rnd_date(r: &mut Rng) -> Date {
    let month = match r.below(6) {
        0 => 12,
        1 => 1,
        2 => 2,
        _ => r.int(1, 12) as u8,
    };
    let dmax = DPM[month as usize - 1] as i64;
    let day = match r.below(4) {
        0 => dmax,
        1 => 1,
        _ => r.int(1, dmax),
    } as u8;
    let hour = match r.below(5) {
        0 => 0.0,
        1 => r.below(24) as f64,
        2 => r.below(96) as f64 / 4.0,
        3 => 23.0 + r.f() * 0.999_999,
        _ => r.f() * 24.0,
    };
    Date { month, day, hour }
}
/// reference: seconds since Jan 1st 00:00
fn ref_secs(d: &Date) -> f64 {
    let mut n = 0u32;
    for m in 0..(d.month as usize - 1) {
        n += DPM[m];
    }
    (n + d.day as u32 - 1) as f64 * 86400.0 + d.hour * 3600.0
}
fn valid(d: &Date) -> Result<(), String> {
    if d.month < 1 || d.month > 12 {
        return Err(format!("month out of range: {:?}", d));
    }
    if d.day < 1 || d.day as u32 > DPM[d.month as usize - 1] {
        return Err(format!("day out of range: {:?}", d));
    }
    if !(0.0..24.0).contains(&d.hour) {
        return Err(format!("hour out of range: {:?}", d));
    }
    Ok(())
}
const YEAR: f64 = 365.0 * 86400.0;
/// circular distance in seconds
fn cdist(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(YEAR);
    d.min(YEAR - d)
}

fn arith(c: &mut Case) -> R {
    let d0 = rnd_date(&mut c.rng);
    // a history of several operations on the same date
    let mut d = d0;
    let mut t = ref_secs(&d0);
    let nops = 1 + c.rng.below(12);
    let mut log = format!("{:?}", d0);
    for _ in 0..nops {
        let before = d;
        match c.rng.below(4) {
            0 => {
                let n = match c.rng.below(4) {
                    0 => c.rng.below(40),
                    1 => c.rng.below(366),
                    2 => 180 + c.rng.below(190),
                    _ => c.rng.below(1500),
                };
                d.add_days(n);
                t += n as f64 * 86400.0;
                log += &format!(" +{}d", n);
                ensure!(d.hour == before.hour, "{}: add_days({}) changed the hour of {:?} into {:?}", log, n, before, d);
                c.event("add_days", 1);
            }
            1 => {
                let n = match c.rng.below(3) {
                    0 => c.rng.range(0.0, 30.0),
                    1 => c.rng.below(100) as f64,
                    _ => c.rng.range(0.0, 9000.0),
                };
                d.add_hours(n);
                t += n * 3600.0;
                log += &format!(" +{}h", n);
                c.event("add_hours", 1);
            }
            2 => {
                let n = match c.rng.below(3) {
                    0 => *c.rng.pick(&[60., 300., 600., 900., 1200., 1800., 3600., 7200.]),
                    1 => c.rng.range(0.0, 90000.0),
                    _ => c.rng.below(200) as f64,
                };
                d.add_seconds(n);
                t += n;
                log += &format!(" +{}s", n);
                c.event("add_seconds", 1);
            }
            _ => {
                let n = c.rng.range(0.0, 5000.0);
                d.add_minutes(n);
                t += n * 60.0;
                log += &format!(" +{}min", n);
                c.event("add_minutes", 1);
            }
        }
        valid(&d).map_err(|e| format!("{} -> {}", log, e))?;
        let got = ref_secs(&d);
        ensure!(cdist(got, t) < 1e-3, "{}: got {:?} (second {} of the year), expected second {}", log, d, got, t.rem_euclid(YEAR));
        if got + 1.0 < ref_secs(&before) {
            c.event("crossed_new_year", 1);
        }
        if d.month != before.month {
            c.event("month_change", 1);
        }
    }
    c.seen(&format!("{}-{}-{}-{}-{}", d0.month, d0.day, d.month, d.day, nops));
    c.desc(log);
    Ok(())
}

fn doy(c: &mut Case) -> R {
    let d = rnd_date(&mut c.rng);
    c.desc(format!("{:?}", d));
    let n = d.day_of_year();
    ensure!((n * 86400.0 - ref_secs(&d)).abs() < 1e-3, "{:?}.day_of_year() = {} but the calendar says {}", d, n, ref_secs(&d) / 86400.);
    let b = Date::from_day_of_year(n);
    valid(&b)?;
    ensure!((ref_secs(&b) - ref_secs(&d)).abs() < 1e-3, "from_day_of_year(day_of_year({:?})) = {:?}", d, b);
    // and the reverse direction, on arbitrary fractional days
    let x = if c.rng.chance(0.3) { c.rng.below(365) as f64 } else { c.rng.range(0.0, 364.999) };
    let b = Date::from_day_of_year(x);
    valid(&b).map_err(|e| format!("from_day_of_year({}): {}", x, e))?;
    ensure!((b.day_of_year() - x).abs() < 1e-8, "from_day_of_year({}) = {:?} whose day of year is {}", x, b, b.day_of_year());
    // ordering & difference agree with the timeline
    let e = rnd_date(&mut c.rng);
    let (a, bb) = (ref_secs(&d), ref_secs(&e));
    ensure!((d < e) == (a < bb) || (a - bb).abs() < 1e-6, "{:?} < {:?} is {} (timeline says {})", d, e, d < e, a < bb);
    ensure!((d > e) == (a > bb) || (a - bb).abs() < 1e-6, "{:?} > {:?} is {}", d, e, d > e);
    ensure!(((d - e) * 86400. - (a - bb)).abs() < 1e-3, "{:?} - {:?} = {}", d, e, d - e);
    ensure!(d.same_day(e) == (d.month == e.month && d.day == e.day), "same_day({:?},{:?})", d, e);
    ensure!((d == e) == (d.month == e.month && d.day == e.day && d.hour == e.hour), "{:?} == {:?}", d, e);
    // sorting a bunch
    let mut v: Vec<Date> = (0..10).map(|_| rnd_date(&mut c.rng)).collect();
    v.sort();
    for w in v.windows(2) {
        ensure!(ref_secs(&w[0]) <= ref_secs(&w[1]) + 1e-6, "sorting dates put {:?} before {:?}", w[0], w[1]);
    }
    // interpolation moves forward in time from d to e
    let x = *c.rng.pick(&[0.0, 1.0, 0.5, 0.25, 0.9]);
    let span = if bb < a { bb + YEAR - a } else { bb - a };
    let m = d.interpolate(e, x);
    valid(&m).map_err(|er| format!("interpolate({:?},{:?},{}): {}", d, e, x, er))?;
    ensure!(cdist(ref_secs(&m), a + x * span) < 1e-2, "interpolate({:?},{:?},{}) = {:?}", d, e, x, m);
    // conversions
    let chr = d.into_naive_datetime(2023);
    match chr {
        Ok(nd) => {
            let back: Date = nd.into();
            ensure!(back.month == d.month && back.day == d.day, "{:?} -> {} -> {:?}: the day changed", d, nd, back);
            ensure!((back.hour - d.hour).abs() * 3600.0 <= 1.0 + 1e-6, "{:?} -> {} -> {:?}: more than one second apart", d, nd, back);
        }
        Err(e) => return Err(Fail::Bad(format!("{:?}: cannot convert into a date-time: {}", d, e))),
    }
    // display names the same day
    let s = format!("{}", d);
    ensure!(s.starts_with(&format!("{:02}/{:02} - ", d.month, d.day)), "Display of {:?} is '{}'", d, s);
    let t = s.split(" - ").nth(1).unwrap_or("");
    let hm: Vec<f64> = t.split(':').filter_map(|x| x.parse().ok()).collect();
    ensure!(hm.len() == 2 && (hm[0] + hm[1] / 60. - d.hour).abs() <= 0.5 / 60. + 1e-9, "Display of {:?} is '{}'", d, s);
    c.event("roundtrips", 1);
    c.seen(&format!("{}-{}-{}", d.month, d.day, (d.hour * 4.) as i32));
    Ok(())
}

fn period(c: &mut Case) -> R {
    let start = rnd_date(&mut c.rng);
    let dts = [60., 300., 600., 900., 1000., 1200., 1800., 3600., 5400., 7200., 10800., 86400.];
    let dt: f64 = if c.rng.chance(0.7) { *c.rng.pick(&dts) } else { c.rng.range(30.0, 100000.0) };
    // span chosen so that we get a manageable number of steps
    let span = match c.rng.below(4) {
        0 => c.rng.below(200) as f64 * dt,
        1 => c.rng.range(0.0, 3.0) * dt,
        2 => c.rng.range(0.0, 2000.0) * dt,
        _ => c.rng.range(0.0, 364.9) * 86400.0,
    };
    let span = span.min(364.9 * 86400.).min(4000.0 * dt);
    let mut end = start;
    end.add_seconds(span);
    let ts = ref_secs(&start);
    let span = {
        let mut s = ref_secs(&end) - ts;
        if end < start {
            s += YEAR;
        }
        s
    };
    c.desc(format!("Period::new({:?}, {:?}, {})", start, end, dt));
    let p = Period::new(start, end, dt);
    let mut k = 0u64;
    let kmax_lo = ((span - 1e-2) / dt).floor().max(0.0) as u64; // must be visited
    let kmax_hi = ((span + 1e-2) / dt).floor() as u64; // may be visited
    let crossing = end < start;
    for d in p {
        k += 1;
        ensure!(k <= kmax_hi, "item {} ({:?}) lies beyond the end of the period", k, d);
        valid(&d)?;
        let e = cdist(ref_secs(&d), ts + k as f64 * dt);
        ensure!(e < 1e-2, "item {} is {:?}, off by {} s from start + {} * dt", k, d, e, k);
        if k % 64 == 1 {
            ensure!(p.contains(d) || (span - k as f64 * dt).abs() < 1e-2, "the period does not 'contain' its own item {:?}", d);
        }
    }
    ensure!(k >= kmax_lo, "only {} items were produced, expected {}", k, kmax_lo);
    // membership
    ensure!(p.contains(start) && p.contains(end), "the period does not contain its own ends: {} {}", p.contains(start), p.contains(end));
    for _ in 0..8 {
        let q = rnd_date(&mut c.rng);
        let off = (ref_secs(&q) - ts).rem_euclid(YEAR);
        let inside = off <= span;
        if (off - span).abs() > 1e-3 && off > 1e-3 && YEAR - off > 1e-3 {
            ensure!(p.contains(q) == inside, "contains({:?}) = {}", q, p.contains(q));
        }
    }
    c.event("steps", k);
    if crossing {
        c.event("through_new_year", 1);
    }
    if k > 0 {
        c.seen(&format!("{}-{}-{}-{}-{}-{}", start.month, start.day, end.month, end.day, k, crossing));
    }
    Ok(())
}

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "C01",
        rule: "random histories of add_days/hours/minutes/seconds on random dates (month ends, new year, 0..1500 days), day-of-year round trips, ordering, difference, interpolation, date-time conversion, display; non-trivial = distinct (start day, end day, history length) or (day, quarter hour)",
        assumptions: &["non-negative increments", "365-day, year-agnostic calendar as documented", "tolerance 1 ms (1 s for whole-second conversions)"],
        workloads: &[
            wl("arith", 60000, 1500000, arith).need(&[("add_days", 1000), ("crossed_new_year", 1000), ("month_change", 1000)]),
            wl("doy", 40000, 1000000, doy).need(&[("roundtrips", 1000)]),
        ],
    },
    &Prop {
        id: "C02",
        rule: "random (start, end, dt), dt from 30 s to >1 day, including periods through new year and periods shorter than dt; every produced item is compared with start + k*dt; non-trivial = at least one item, distinct (start,end,items)",
        assumptions: &["start and end are valid dates (hour < 24)", "items within 10 ms of the end may or may not be produced"],
        workloads: &[wl("period", 8000, 200000, period).need(&[("steps", 100000), ("through_new_year", 500)])],
    },
];
