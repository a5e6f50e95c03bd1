//! Facts about the objects of a model; arithmetic of colours and of polynomials
use crate::core::*;
use crate::ensure;
use geometry::{Loop3D, Point3D, Polygon3D, Vector3D};
use model::*;
use polynomial::Polynomial;
use rendering::Spectrum;

const NAMES: [(Orientation, &str); 9] = [
    (Orientation::North, "north"),
    (Orientation::NorthEast, "north east"),
    (Orientation::East, "east"),
    (Orientation::SouthEast, "south east"),
    (Orientation::South, "south"),
    (Orientation::SouthWest, "south west"),
    (Orientation::West, "west"),
    (Orientation::NorthWest, "north west"),
    (Orientation::Horizontal, "horizontal"),
];
/// None: too close to a limit
fn facing(n: [f64; 3]) -> Option<usize> {
    let l = (n[0] * n[0] + n[1] * n[1] + n[2] * n[2]).sqrt();
    let tilt = (n[2].abs() / l).min(1.).asin().to_degrees();
    if (tilt - 45.).abs() < 1e-6 {
        return None;
    }
    if tilt > 45. {
        return Some(8);
    }
    let az = n[0].atan2(n[1]).to_degrees().rem_euclid(360.);
    let s = (az + 22.5) / 45.;
    if (s - s.round()).abs() < 1e-7 {
        return None;
    }
    Some(s.floor() as usize % 8)
}
fn er<T>(x: Result<T, String>) -> Result<T, Fail> {
    x.map_err(|e| Fail::Bad(format!("refused: {}", e)))
}
/// a rectangle of the given normal
fn panel(r: &mut Rng, n: [f64; 3]) -> (Polygon3D, Vec<Point3D>) {
    let n = Vector3D::new(n[0], n[1], n[2]).get_normalized();
    let other = if n.z.abs() < 0.9 { Vector3D::new(0., 0., 1.) } else { Vector3D::new(1., 0., 0.) };
    let u = other.cross(n).get_normalized();
    let v = n.cross(u);
    let o = Point3D::new(r.range(-20., 20.), r.range(-20., 20.), r.range(-5., 20.));
    let (a, b) = (r.range(0.5, 9.), r.range(0.5, 9.));
    let pts = vec![o, o + u * a, o + u * a + v * b, o + v * b];
    let mut l = Loop3D::new();
    for p in pts.iter() {
        l.push(*p).unwrap();
    }
    l.close().unwrap();
    (Polygon3D::new(l).unwrap(), pts)
}
fn boundary(r: &mut Rng) -> Boundary {
    match r.below(8) {
        0..=2 => Boundary::Outdoor,
        3..=5 => Boundary::Space { space: "room".into() },
        6 => {
            if r.chance(0.5) {
                Boundary::Ground
            } else {
                Boundary::Adiabatic
            }
        }
        _ => Boundary::AmbientTemperature { temperature: r.range(0., 30.) },
    }
}
fn orientations<S: SurfaceTrait>(c: &mut Case, s: &S, n: [f64; 3], pts: &[Point3D]) -> R {
    let minus = n.map(|x| -x);
    let (Some(f), Some(b)) = (facing(n), facing(minus)) else { return Ok(()) };
    ensure!(s.orientation() == NAMES[f].0, "a surface of normal {:?} faces {}, not {}", n, s.orientation(), NAMES[f].1);
    let out = matches!(s.front_boundary(), Boundary::Outdoor);
    let ins = matches!(s.front_boundary(), Boundary::Space { .. });
    let bout = matches!(s.back_boundary(), Boundary::Outdoor);
    let bins = matches!(s.back_boundary(), Boundary::Space { .. });
    let want = if out && bins {
        Some((f, b))
    } else if ins && bout {
        Some((b, f))
    } else {
        None
    };
    let (wo, wi) = (want.map(|x| NAMES[x.0].0), want.map(|x| NAMES[x.1].0));
    ensure!(s.outside_orientation() == wo, "normal {:?}, front {:?}, back {:?}: the outside faces {:?}, not {:?}", n, s.front_boundary(), s.back_boundary(), s.outside_orientation(), wo);
    ensure!(s.inside_orientation() == wi, "normal {:?}, front {:?}, back {:?}: the inside faces {:?}, not {:?}", n, s.front_boundary(), s.back_boundary(), s.inside_orientation(), wi);
    if want.is_some() {
        c.event("two sides", 1);
    }
    let bb = er(s.bbox())?;
    for k in 0..3 {
        let g = |p: &Point3D| [p.x, p.y, p.z][k];
        let lo = pts.iter().map(g).fold(f64::MAX, f64::min);
        let hi = pts.iter().map(g).fold(f64::MIN, f64::max);
        ensure!((g(&bb.min) - lo).abs() < 1e-9 && (g(&bb.max) - hi).abs() < 1e-9, "box of a surface: {:?}", bb);
    }
    let want = (pts[1] - pts[0]).length() * (pts[3] - pts[0]).length();
    ensure!((s.area() - want).abs() < 1e-8 * want, "area {} not {}", s.area(), want);
    Ok(())
}
fn walls(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let n = loop {
        let az = if r.chance(0.5) { r.range(0., 360.) } else { 45. * r.below(8) as f64 + r.range(-30., 30.) }.to_radians();
        let tilt = match r.below(4) {
            0 => r.range(-90., 90.),
            1 => r.range(-50., 50.),
            2 => *r.pick(&[-45.5, -44.5, 44.5, 45.5, 90., -90.]),
            _ => 0.,
        };
        let tilt = f64::to_radians(tilt);
        let n = [az.sin() * tilt.cos(), az.cos() * tilt.cos(), tilt.sin()];
        if facing(n).is_some() {
            break n;
        }
    };
    let f = facing(n).unwrap();
    let got = get_orientation(Vector3D::new(n[0], n[1], n[2]));
    c.desc(format!("normal {:?}", n));
    ensure!(got == NAMES[f].0, "{:?} faces {}, not {}", n, got, NAMES[f].1);
    ensure!(got.to_str() == NAMES[f].1 && got.to_string() == NAMES[f].1, "{:?} is called {}", NAMES[f].1, got);
    let (poly, pts) = panel(r, n);
    let (fb, bb) = (boundary(r), boundary(r));
    c.seen(&format!("{} {:?} {:?} {}", f, std::mem::discriminant(&fb), std::mem::discriminant(&bb), (n[2] * 10.) as i64));
    if r.chance(0.5) {
        let (f2, b2) = (boundary(r), boundary(r));
        let mut s = Surface::new("w", poly, "c", f2, b2);
        s.set_front_boundary(fb);
        s.set_back_boundary(bb);
        orientations(c, &s, n, &pts)
    } else {
        let cat = *r.pick(&[FenestrationType::Window, FenestrationType::Door]);
        let s = Fenestration::new("w", poly, "c", cat, fb, bb);
        orientations(c, &s, n, &pts)
    }
}

fn nm(r: &mut Rng) -> String {
    // names that are alike
    r.pick(&["a", "A", "a ", "aa", "b", "", "room", "room 1", "room 10", "été"]).to_string()
}
fn lookups(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let mut m = Model::default();
    m.add_space(Space::new("the space"));
    m.add_construction(Construction::new("the construction"));
    // what was added, in order: (kind, name, mark)
    let mut added: Vec<(usize, String, f64)> = vec![];
    let k = r.below(25);
    for i in 0..k {
        let mark = 1. + i as f64;
        let name = nm(r);
        let kind = r.below(9);
        match kind {
            0 => {
                let mut s = substance::Normal::new(name.clone());
                s.set_density(mark);
                m.add_substance(s.wrap());
            }
            1 => {
                m.add_material(Material::new(name.clone(), "s".to_string(), mark));
            }
            2 => {
                let mut s = Construction::new(name.clone());
                s.materials = vec![mark.to_string()];
                m.add_construction(s);
            }
            3 => {
                let mut s = Space::new(name.clone());
                s.set_volume(mark);
                m.add_space(s);
            }
            4 => {
                let mut s = Building::new(name.clone());
                s.set_stack_coefficient(mark);
                m.add_building(s);
            }
            5 => {
                let (p, _) = panel(r, [0., 1., 0.]);
                let mut s = Surface::new(name.clone(), p, "the construction".to_string(), Boundary::Outdoor, Boundary::Outdoor);
                s.set_precalculated_front_convection_coef(mark);
                er(m.add_surface(s))?;
            }
            6 => {
                let (p, _) = panel(r, [0., 1., 0.]);
                let mut s = Fenestration::new(name.clone(), p, "the construction".to_string(), FenestrationType::Window, Boundary::Outdoor, Boundary::Outdoor);
                s.set_precalculated_front_convection_coef(mark);
                er(m.add_fenestration(s))?;
            }
            7 => {
                if r.chance(0.5) {
                    let mut s = hvac::ElectricHeater::new(name.clone());
                    s.set_heating_setpoint(mark);
                    s.set_target_space("the space");
                    er(m.add_hvac(s.wrap()))?;
                } else {
                    let mut s = hvac::IdealHeaterCooler::new(name.clone());
                    s.set_heating_setpoint(mark);
                    s.set_target_space("the space");
                    er(m.add_hvac(s.wrap()))?;
                }
            }
            _ => {
                let mut s = Luminaire::new(name.clone());
                s.set_max_power(mark);
                s.set_target_space("the space");
                er(m.add_luminaire(s))?;
            }
        }
        added.push((kind, name, mark));
    }
    c.desc(format!("{:?}", added));
    c.seen(&format!("{:?}", added.iter().map(|x| (x.0, &x.1)).collect::<Vec<_>>()));
    let mut names: Vec<String> = added.iter().map(|x| x.1.clone()).collect();
    names.extend((0..3).map(|_| nm(r)));
    for name in names {
        for kind in 0..9 {
            let want = added.iter().find(|x| x.0 == kind && x.1 == name).map(|x| x.2);
            let got: Option<f64> = match kind {
                0 => match m.get_substance(&name) {
                    Ok(Substance::Normal(s)) => s.density().ok().copied(),
                    _ => None,
                },
                1 => m.get_material(&name).ok().map(|s| s.thickness),
                2 => m.get_construction(&name).ok().map(|s| s.materials[0].parse().unwrap()),
                3 => m.get_space(&name).ok().map(|s| *s.volume().unwrap()),
                4 => m.get_building(&name).ok().map(|s| *s.stack_coefficient().unwrap()),
                5 => m.get_surface(&name).ok().map(|s| s.fixed_front_hs().unwrap()),
                6 => m.get_fenestration(&name).ok().map(|s| s.fixed_front_hs().unwrap()),
                7 => match m.get_hvac(&name) {
                    Ok(HVAC::ElectricHeater(s)) => s.heating_setpoint().ok().copied(),
                    Ok(HVAC::IdealHeaterCooler(s)) => s.heating_setpoint().ok().copied(),
                    Err(_) => None,
                },
                _ => m.get_luminaire(&name).ok().map(|s| *s.max_power().unwrap()),
            };
            ensure!(got == want, "looking for '{}' (kind {}) gives {:?}, not {:?}", name, kind, got, want);
            c.event(if want.is_some() { "found" } else { "not found" }, 1);
        }
    }
    // what refers to nothing is refused
    let (p, _) = panel(r, [0., 0., 1.]);
    let gone = Boundary::Space { space: "nowhere".into() };
    let here = Boundary::Space { space: "the space".into() };
    let count = (m.surfaces.len(), m.fenestrations.len(), m.hvacs.len(), m.luminaires.len());
    let s = match r.below(3) {
        0 => Surface::new("x", p.clone(), "nothing", Boundary::Outdoor, Boundary::Outdoor),
        1 => Surface::new("x", p.clone(), "the construction", gone.clone(), here.clone()),
        _ => Surface::new("x", p.clone(), "the construction", here.clone(), gone.clone()),
    };
    ensure!(m.add_surface(s.clone()).is_err(), "{:?} is accepted", s);
    let s = Fenestration::new("x", p, "nothing", *r.pick(&[FenestrationType::Door, FenestrationType::Window]), Boundary::Outdoor, here);
    ensure!(m.add_fenestration(s.clone()).is_err(), "{:?} is accepted", s);
    let after = (m.surfaces.len(), m.fenestrations.len(), m.hvacs.len(), m.luminaires.len());
    ensure!(count == after, "what was refused is in the model");
    Ok(())
}
fn set(r: &mut Rng) -> Option<f64> {
    if r.chance(0.6) {
        Some(r.logu(0.01, 3000.))
    } else {
        None
    }
}
fn facts(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    // devices
    let (hs, cs, hp, cp) = (set(r), set(r), set(r), set(r));
    let place = if r.chance(0.7) { Some("x".to_string()) } else { None };
    c.desc(format!("{:?} {:?} {:?} {:?} {:?}", hs, cs, hp, cp, place));
    c.seen(&format!("{} {} {} {} {}", hs.is_some(), cs.is_some(), hp.is_some(), cp.is_some(), place.is_some()));
    fn judge<H: SmallHVAC>(h: &H, w: [Option<f64>; 4], place: &Option<String>) -> R {
        let got = [h.heating_setpoint().ok(), h.cooling_setpoint().ok(), h.max_heating_power().ok(), h.max_cooling_power().ok()];
        ensure!(got == w, "a device has {:?} (setpoints and powers), not {:?}", got, w);
        ensure!(h.target_space().ok() == place.as_ref(), "a device serves {:?}, not {:?}", h.target_space(), place);
        Ok(())
    }
    let mut h = hvac::IdealHeaterCooler::new("h");
    let mut e = hvac::ElectricHeater::new("h");
    if let Some(v) = hs {
        h.set_heating_setpoint(v);
        e.set_heating_setpoint(v);
    }
    if let Some(v) = cs {
        h.set_cooling_setpoint(v);
    }
    if let Some(v) = hp {
        h.set_max_heating_power(v);
        e.set_max_heating_power(v);
    }
    if let Some(v) = cp {
        h.set_max_cooling_power(v);
    }
    if let Some(v) = &place {
        h.set_target_space(v);
        e.set_target_space(v);
    }
    judge(&h, [hs, cs, hp, cp], &place)?;
    judge(&e, [hs, None, hp, None], &place)?;
    // substances
    let (k, d, cp) = (set(r), set(r), set(r));
    let mut s = substance::Normal::new("s");
    if let Some(v) = k {
        s.set_thermal_conductivity(v);
    }
    if let Some(v) = d {
        s.set_density(v);
    }
    if let Some(v) = cp {
        s.set_specific_heat_capacity(v);
    }
    match (k, d, cp, s.thermal_diffusivity()) {
        (Some(k), Some(d), Some(cp), Ok(v)) => {
            let want = k / (d * cp);
            ensure!((v - want).abs() < 1e-12 * want, "diffusivity {} not {}", v, want);
            c.event("diffusivities", 1);
        }
        (Some(_), Some(_), Some(_), Err(e)) => return Err(Fail::Bad(e)),
        (_, _, _, Ok(v)) => return Err(Fail::Bad(format!("diffusivity {} of {:?} {:?} {:?}", v, k, d, cp))),
        _ => {}
    }
    // what can be opened
    let (p, _) = panel(r, [0., 1., 0.]);
    let mut f = Fenestration::new("f", p, "c", FenestrationType::Window, Boundary::Outdoor, Boundary::Outdoor);
    ensure!(!f.is_operable(), "a window is operable by default");
    let (lo, hi) = (set(r), set(r));
    let (op, want) = match r.below(3) {
        0 => (FenestrationPosition::Fixed { fraction: lo }, false),
        1 => (FenestrationPosition::Continuous { max: hi, min: lo }, true),
        _ => (FenestrationPosition::Binary { open: hi, closed: lo }, true),
    };
    f.set_operation(op);
    ensure!(f.is_operable() == want, "operable: {}", !want);
    for (p, n) in [
        (SpacePurpose::Bathroom, "Bathroom"),
        (SpacePurpose::Bedroom, "Bedroom"),
        (SpacePurpose::DiningRoom, "Dining Room"),
        (SpacePurpose::Kitchen, "Kitchen"),
        (SpacePurpose::LivingRoom, "Living Room"),
        (SpacePurpose::Office, "Office"),
        (SpacePurpose::Storage, "Storage"),
        (SpacePurpose::Garage, "Garage"),
        (SpacePurpose::Hallway, "Hallway"),
        (SpacePurpose::Laundry, "Laundry"),
        (SpacePurpose::Other, "Other"),
    ] {
        ensure!(p.as_str() == n, "{:?} is called {}", p, p.as_str());
    }
    Ok(())
}

fn colours(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let one = |r: &mut Rng| -> [f64; 3] {
        let s = r.logu(1e-6, 1e6);
        let sign = r.chance(0.3);
        [0, 1, 2].map(|_| {
            let v = if r.chance(0.05) { s } else { s * r.range(0.01, 1.) };
            if sign && r.chance(0.5) {
                -v
            } else {
                v
            }
        })
    };
    let (a, b) = (one(r), one(r));
    let s = r.logu(1e-3, 1e3) * if r.chance(0.3) { -1. } else { 1. };
    let n = r.int(-3, 4) as i32;
    c.desc(format!("{:?} {:?} {} {}", a, b, s, n));
    c.seen(&format!("{:?} {:?} {} {}", a.map(|x| x > 0.), b.map(|x| x > 0.), s > 0., n));
    let (x, y) = (Spectrum(a), Spectrum(b));
    let zip = |f: &dyn Fn(f64, f64) -> f64| [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2])];
    let same = |what: &str, got: Spectrum, want: [f64; 3]| -> R {
        for k in 0..3 {
            let tol = 1e-12 * (want[k].abs() + 1e-300);
            ensure!((got.0[k] - want[k]).abs() <= tol || got.0[k] == want[k], "{}: {:?}, not {:?}", what, got, want);
        }
        Ok(())
    };
    let asg = |f: &dyn Fn(&mut Spectrum)| {
        let mut z = x;
        f(&mut z);
        z
    };
    same("colour + colour", x + y, zip(&|p, q| p + q))?;
    same("colour - colour", x - y, zip(&|p, q| p - q))?;
    same("colour * colour", x * y, zip(&|p, q| p * q))?;
    same("colour / colour", x / y, zip(&|p, q| p / q))?;
    same("colour += colour", asg(&|z| *z += y), zip(&|p, q| p + q))?;
    same("colour -= colour", asg(&|z| *z -= y), zip(&|p, q| p - q))?;
    same("colour *= colour", asg(&|z| *z *= y), zip(&|p, q| p * q))?;
    same("colour /= colour", asg(&|z| *z /= y), zip(&|p, q| p / q))?;
    same("colour + value", x + s, a.map(|p| p + s))?;
    same("colour - value", x - s, a.map(|p| p - s))?;
    same("colour * value", x * s, a.map(|p| p * s))?;
    same("colour / value", x / s, a.map(|p| p / s))?;
    same("colour += value", asg(&|z| *z += s), a.map(|p| p + s))?;
    same("colour -= value", asg(&|z| *z -= s), a.map(|p| p - s))?;
    same("colour *= value", asg(&|z| *z *= s), a.map(|p| p * s))?;
    same("colour /= value", asg(&|z| *z /= s), a.map(|p| p / s))?;
    same("value + colour", s + x, a.map(|p| s + p))?;
    same("value - colour", s - x, a.map(|p| s - p))?;
    same("value * colour", s * x, a.map(|p| s * p))?;
    same("value / colour", s / x, a.map(|p| s / p))?;
    same("power", x.powi(n), a.map(|p| (0..n.abs()).fold(1., |t, _| if n > 0 { t * p } else { t / p })))?;
    let root = Spectrum(a.map(f64::abs)).powf(0.5);
    same("root", root * root, a.map(f64::abs))?;
    same("gray", Spectrum::gray(s), [s; 3])?;
    same("from", Spectrum::from(s), [s; 3])?;
    same("black", Spectrum::BLACK, [0.; 3])?;
    same("default", Spectrum::default(), [0.; 3])?;
    same("one", Spectrum::ONE, [1.; 3])?;
    let rad = 0.265 * a[0] + 0.67 * a[1] + 0.065 * a[2];
    let tol = 1e-12 * a.iter().fold(0f64, |p, q| p.max(q.abs()));
    ensure!((x.radiance() - rad).abs() < tol, "radiance {} not {}", x.radiance(), rad);
    ensure!((x.luminance() - rad * 179.).abs() < 179. * tol, "luminance {} not {}", x.luminance(), rad * 179.);
    let p = Spectrum(a.map(f64::abs));
    ensure!((p.normalize().radiance() - 1.).abs() < 1e-12, "normalized: radiance {}", p.normalize().radiance());
    let big = a[0].max(a[1]).max(a[2]);
    ensure!(x.max() == big, "maximum {} not {}", x.max(), big);
    ensure!(!p.is_black() && Spectrum::BLACK.is_black(), "black");
    let k = r.below(3);
    let mut only = [0.; 3];
    only[k] = s.abs();
    ensure!(!Spectrum(only).is_black(), "{:?} is black", only);
    c.event("operations", 30);
    Ok(())
}
fn polynomials(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let n = r.below(13);
    let s = r.logu(0.01, 100.);
    let cs: Vec<f64> = (0..n).map(|_| if r.chance(0.1) { 0. } else { r.normal() * s }).collect();
    let x = match r.below(4) {
        0 => *r.pick(&[0., 1., -1.]),
        1 => r.range(-10., 10.),
        _ => r.range(-1.5, 1.5),
    };
    c.desc(format!("{:?} at {}", cs, x));
    c.seen(&format!("{} {}", n, (x * 4.) as i64));
    let mut p = Polynomial::new();
    ensure!(p.is_empty() && p.len() == 0 && p.eval(x) == 0., "a new polynomial is not zero");
    let mut want = 0f64;
    let mut size = 0f64;
    let mut pow = 1f64;
    for (i, v) in cs.iter().enumerate() {
        p.push(*v);
        want += v * pow;
        size += (v * pow).abs();
        pow *= x;
        ensure!(p.len() == i + 1 && !p.is_empty(), "{} coefficients, not {}", p.len(), i + 1);
        let got = p.eval(x);
        ensure!((got - want).abs() <= 1e-13 * size, "{:?} at {} is {}, not {}", &cs[..=i], x, got, want);
        c.event("evaluations", 1);
    }
    let q = match cs.len() {
        0 => polynomial::poly![],
        1 => polynomial::poly![cs[0]],
        2 => polynomial::poly![cs[0], cs[1]],
        5 => polynomial::poly![cs[0], cs[1], cs[2], cs[3], cs[4]],
        12 => polynomial::poly![cs[0], cs[1], cs[2], cs[3], cs[4], cs[5], cs[6], cs[7], cs[8], cs[9], cs[10], cs[11]],
        _ => p,
    };
    ensure!(q.len() == n && (q.eval(x) - p.eval(x)).abs() <= 1e-13 * size, "{:?} at {} is {} and {}", cs, x, q.eval(x), p.eval(x));
    if n == 12 {
        let v = r.normal();
        let mut p = p;
        ensure!(guarded(move || p.push(v)).is_err(), "a thirteenth coefficient is taken");
    }
    Ok(())
}

#[rustfmt::skip]
pub const PROPS: &[&Prop] = &[
    &Prop {
        id: "X08",
        rule: "walls and windows of any normal (all sectors, both sides of every limit) and pair of boundaries: the way they, their inside and their outside face; models with objects of all kinds, alike and repeated names: what is found by every name and what is refused; devices, substances and windows with some of their data: what they report. Non-trivial: distinct (sector, boundaries, tilt), (names), (data given).",
        assumptions: &["within 1e-6 degrees of the limit between two orientations either is accepted"],
        workloads: &[wl("walls", 60000, 1000000, walls).need(&[("two sides", 5000)]), wl("lookups", 3000, 50000, lookups).need(&[("found", 50000), ("not found", 50000)]), wl("facts", 30000, 500000, facts).need(&[("diffusivities", 2000)])],
    },
    &Prop {
        id: "N12",
        rule: "colours of any magnitude and sign with every operator, against the same operation on the channels; radiance and luminance against their weights. Non-trivial: distinct (signs, power).",
        assumptions: &[],
        workloads: &[wl("colours", 60000, 1000000, colours).need(&[("operations", 500000)])],
    },
    &Prop {
        id: "P01",
        rule: "polynomials of 0 to 12 coefficients, by push and by macro, evaluated after each push at 0, ±1 and elsewhere. Non-trivial: distinct (length, position).",
        assumptions: &["overflows excluded"],
        workloads: &[wl("polynomials", 60000, 1000000, polynomials).need(&[("evaluations", 100000)])],
    },
];
