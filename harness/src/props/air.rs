//! Air flow: infiltration of every space.
use super::heat::{constant_weather, day, META};
use crate::core::*;
use crate::{ensure, incon};
use air::air_model::AirFlowModel;
use communication::SimulationModel;
use model::{Building, Infiltration, Model, ShelterClass, SimulationStateElement, SiteDetails, Space, TerrainClass};

fn wind_at_1m(t: Option<TerrainClass>) -> f64 {
    let (alpha, delta): (f64, f64) = match t {
        Some(TerrainClass::Country) => (0.14, 270.),
        Some(TerrainClass::Suburbs) | Some(TerrainClass::Urban) | None => (0.22, 370.),
        Some(TerrainClass::City) => (0.33, 460.),
        Some(TerrainClass::Ocean) => (0.10, 210.),
    };
    (270f64 / 10.).powf(0.14) * (1. / delta).powf(alpha)
}
/// ASHRAE Handbook of Fundamentals / EnergyPlus: wind coefficients by shelter class and storeys
const CW: [[f64; 3]; 5] = [
    [0.000319, 0.000420, 0.000494],
    [0.000246, 0.000325, 0.000382],
    [0.000174, 0.000231, 0.000271],
    [0.000104, 0.000137, 0.000161],
    [0.000032, 0.000042, 0.000049],
];
const CS: [f64; 3] = [0.000145, 0.000290, 0.000435];
fn shelter(i: usize) -> ShelterClass {
    match i {
        0 => ShelterClass::NoObstructions,
        1 => ShelterClass::IsolatedRural,
        2 => ShelterClass::Urban,
        3 => ShelterClass::LargeLotUrban,
        _ => ShelterClass::SmallLotUrban,
    }
}
#[derive(Clone, Debug)]
struct Bld {
    storeys: Option<usize>,
    shelter: Option<usize>,
    cs: Option<f64>,
    cw: Option<f64>,
}
impl Bld {
    /// None: not enough data
    fn coefs(&self) -> Option<(f64, f64)> {
        let at = |s: usize| s.min(3) - 1;
        let cs = match (self.cs, self.storeys) {
            (Some(v), _) => v,
            (None, Some(s)) if s > 0 => CS[at(s)],
            _ => return None,
        };
        let cw = match (self.cw, self.storeys, self.shelter) {
            (Some(v), _, _) => v,
            (None, Some(s), Some(c)) if s > 0 => CW[c][at(s)],
            _ => return None,
        };
        Some((cs, cw))
    }
}

fn infiltration(c: &mut Case) -> R {
    let r = &mut c.rng;
    let terrain = match r.below(6) {
        0 => Some(TerrainClass::Country),
        1 => Some(TerrainClass::Suburbs),
        2 => Some(TerrainClass::City),
        3 => Some(TerrainClass::Ocean),
        4 => Some(TerrainClass::Urban),
        _ => None,
    };
    let details = terrain.is_some() || r.chance(0.5);
    let nb = 1 + r.below(3);
    let broken = r.chance(0.2); // a building with not enough data
    let blds: Vec<Bld> = (0..nb)
        .map(|_| {
            let mut b = Bld {
                storeys: Some(1 + r.below(3)),
                shelter: Some(r.below(5)),
                cs: if r.chance(0.2) { Some(r.range(1e-5, 1e-3)) } else { None },
                cw: if r.chance(0.2) { Some(r.range(1e-5, 1e-3)) } else { None },
            };
            if broken {
                match r.below(3) {
                    0 => b.storeys = None,
                    1 => b.shelter = None,
                    _ => {
                        b.storeys = None;
                        b.shelter = None
                    }
                }
            }
            b
        })
        .collect();
    let ns = 1 + r.below(5);
    let inf: Vec<Option<Infiltration>> = (0..ns)
        .map(|_| match r.below(7) {
            0 => None,
            1 => Some(Infiltration::Constant { flow: r.range(0., 1.) }),
            2 => Some(Infiltration::Blast { flow: r.range(0., 1.) }),
            3 => Some(Infiltration::Doe2 { flow: r.range(0., 1.) }),
            4 => Some(Infiltration::DesignFlowRate {
                a: r.range(0., 1.),
                b: r.range(0., 0.1),
                c: r.range(0., 0.3),
                d: r.range(0., 0.1),
                phi: r.range(0., 1.),
            }),
            _ => Some(Infiltration::EffectiveAirLeakageArea { area: r.logu(1e-4, 0.5) }),
        })
        .collect();
    // none, a missing one or one of those that exist
    let of: Vec<Option<usize>> = (0..ns)
        .map(|_| match r.below(12) {
            0 if broken => None,
            1 if broken => Some(nb),
            _ => Some(r.below(nb)),
        })
        .collect();
    c.desc(format!("terrain {:?} buildings {:?} infiltration {:?} building of {:?}", terrain, blds, inf, of));
    let mut m = Model::default();
    if details {
        let mut s = SiteDetails::new();
        if let Some(t) = terrain {
            s.set_terrain(t);
        }
        m.site_details = Some(s);
    }
    for (i, b) in blds.iter().enumerate() {
        let mut x = Building::new(format!("building {}", i));
        if let Some(v) = b.storeys {
            x.set_n_storeys(v);
        }
        if let Some(v) = b.shelter {
            x.set_shelter_class(shelter(v));
        }
        if let Some(v) = b.cs {
            x.set_stack_coefficient(v);
        }
        if let Some(v) = b.cw {
            x.set_wind_coefficient(v);
        }
        m.add_building(x);
    }
    for i in 0..ns {
        let mut s = Space::new(format!("space {}", i));
        s.set_volume(30.);
        if let Some(f) = &inf[i] {
            s.set_infiltration(f.clone());
        }
        if let Some(b) = of[i] {
            s.set_building(format!("building {}", b));
        }
        m.add_space(s);
    }
    let mut st = match m.take_state() {
        Some(s) => s,
        None => incon!("no state"),
    };
    for i in 0..ns {
        let at = st.push(SimulationStateElement::SpaceDryBulbTemperature(i), 20.)?;
        m.spaces[i].set_dry_bulb_temperature_index(at)?;
    }
    // expected
    let mut enough = true;
    for i in 0..ns {
        if let Some(Infiltration::EffectiveAirLeakageArea { .. }) = inf[i] {
            enough &= match of[i] {
                Some(b) if b < nb => blds[b].coefs().is_some(),
                _ => false,
            };
        }
    }
    let am = match AirFlowModel::new(&META, (), &m, &mut st, 4) {
        Ok(v) => {
            ensure!(enough, "a leakage area was accepted with no building, or one with not enough data");
            v
        }
        Err(e) => {
            ensure!(!enough, "refused: {}", e);
            c.event("refused", 1);
            c.seen(&e);
            return Ok(());
        }
    };
    let mut state = st.take_values().ok_or_else(|| Fail::Bad("no values".into()))?;
    let mut mem = am.allocate_memory(&state)?;
    let mut date = day();
    let mod1 = wind_at_1m(terrain);
    for _ in 0..4 {
        let (t, wind, dir) = (c.rng.range(-30., 45.), if c.rng.chance(0.1) { 0. } else { c.rng.range(0., 25.) }, c.rng.range(0., 360.));
        for i in 0..ns {
            let v = if c.rng.chance(0.1) { t } else { c.rng.range(-10., 50.) };
            m.spaces[i].set_dry_bulb_temperature(&mut state, v)?;
        }
        let before = state.clone();
        am.march(date, &constant_weather(t, wind, dir), &m, &mut state, &mut mem)?;
        date.add_hours(c.rng.range(0.01, 3.));
        let mut touched = vec![];
        for i in 0..ns {
            let s = &m.spaces[i];
            let dt = (s.dry_bulb_temperature(&before).unwrap_or(f64::NAN) - t).abs();
            let w = wind * mod1;
            let e = match &inf[i] {
                None => 0.,
                Some(Infiltration::Constant { flow }) => *flow,
                Some(Infiltration::Blast { flow }) => flow * (0.606 + 0.03636 * dt + 0.1177 * w),
                Some(Infiltration::Doe2 { flow }) => flow * 0.224 * w,
                Some(Infiltration::DesignFlowRate { a, b, c, d, phi }) => phi * (a + b * dt + c * w + d * w * w),
                Some(Infiltration::EffectiveAirLeakageArea { area }) => {
                    let (cs, cw) = blds[of[i].unwrap_or(0)].coefs().unwrap_or((f64::NAN, f64::NAN));
                    area * 1e4 / 1000. * (cs * dt + cw * wind * wind).sqrt()
                }
            };
            let got = s.infiltration_volume(&state).unwrap_or(f64::NAN);
            ensure!(
                (got - e).abs() <= 1e-9 + 1e-6 * e.abs(),
                "space {} ({:?}) gets {} m3/s instead of {} (dT {}, wind {} m/s)",
                i,
                inf[i],
                got,
                e,
                dt,
                wind
            );
            if inf[i].is_some() {
                let ti = s.infiltration_temperature(&state).unwrap_or(f64::NAN);
                ensure!((ti - t).abs() < 1e-9, "air infiltrates space {} at {} C but it is at {} C outdoors", i, ti, t);
            }
            touched.push(s.infiltration_volume_index());
            touched.push(s.infiltration_temperature_index());
            c.event(
                match &inf[i] {
                    None => "none",
                    Some(Infiltration::Constant { .. }) => "constant",
                    Some(Infiltration::Blast { .. }) => "blast",
                    Some(Infiltration::Doe2 { .. }) => "doe2",
                    Some(Infiltration::DesignFlowRate { .. }) => "design",
                    _ => "leakage",
                },
                1,
            );
            c.seen(&format!("{:?} {:.2} {:.2}", inf[i], dt, wind));
        }
        for k in 0..state.len() {
            if !touched.contains(&Some(k)) {
                ensure!(state[k] == before[k], "element {} of the state is not about infiltration but changed from {} to {}", k, before[k], state[k]);
            }
        }
    }
    Ok(())
}

pub static PROPS: &[&Prop] = &[&Prop {
    id: "A01",
    rule: "random models (1-5 spaces, every kind of infiltration or none, 1-3 buildings with or without enough data, every terrain) over weather and indoor temperatures that change between steps: the flow and temperature of infiltration of every space against the published formulas and tables; incomplete ones are refused. Non-trivial: distinct (infiltration, temperature difference, wind).",
    assumptions: &["buildings of 1 to 3 storeys"],
    workloads: &[wl("infiltration", 4000, 100000, infiltration).need(&[("none", 300), ("constant", 300), ("blast", 300), ("doe2", 300), ("design", 300), ("leakage", 300), ("refused", 100)])],
}];
