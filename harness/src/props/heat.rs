//! Heat transfer: glazing optics, wall discretization, wall and zone heat balance, convection.
use super::house::*;
use crate::core::*;
use crate::{ensure, incon};
use calendar::Date;
use communication::{MetaOptions, SimulationModel};
use geometry::{Point3D, Vector3D};
use heat::cavity::Cavity;
use heat::convection::ConvectionParams;
use heat::discretization::{Discretization, UValue};
use heat::glazing::Glazing;
use heat::heat_model::ThermalModel;
use model::{FenestrationType, Infiltration, Model, SimulationState, SimulationStateElement, SurfaceTrait};
use schedule::ScheduleConstant;
use weather::SyntheticWeather;

const SIGMA: f64 = 5.670374419e-8;
pub const META: MetaOptions = MetaOptions { latitude: 0., longitude: 0., standard_meridian: 0., elevation: 0. };

pub fn constant_weather(t: f64, wind: f64, dir: f64) -> SyntheticWeather {
    let mut w = SyntheticWeather::default();
    w.dry_bulb_temperature = Box::new(ScheduleConstant::new(t));
    w.wind_speed = Box::new(ScheduleConstant::new(wind));
    w.wind_direction = Box::new(ScheduleConstant::new(dir));
    w
}
pub fn day() -> Date {
    Date { month: 3, day: 10, hour: 4. }
}
fn quad(l: &Lay) -> (f64, f64, f64, f64, f64) {
    match l {
        Lay::Solid { tau, af, ab, .. } => (*tau, 1. - tau - af, 1. - tau - ab, *af, *ab),
        _ => unreachable!(),
    }
}

/* ------------------------------------------------------------------ H01 */

fn glazing(c: &mut Case) -> R {
    let n = 1 + c.rng.below(6);
    let mut raw = vec![];
    for _ in 0..n {
        let tau = match c.rng.below(8) {
            0 => 0.0,
            1 => 1.0,
            _ => c.rng.range(0.01, 0.99),
        };
        let side = |r: &mut Rng| match r.below(6) {
            0 => 0.0,
            1 => (1. - tau) * 0.999,
            _ => (1. - tau) * r.f(),
        };
        let (rf, rb) = (side(&mut c.rng), side(&mut c.rng));
        raw.push((tau, rf, rb, 1. - tau - rf, 1. - tau - rb));
    }
    c.desc(format!("layers (tau, rho front, rho back, ..): {:?}", raw));
    let layers: Vec<Glazing> = raw.iter().map(|x| Glazing::new(x.0, x.1, x.2)).collect();
    let (abs, t, rf) = bounce(&raw);
    let rev: Vec<_> = raw.iter().rev().map(|x| (x.0, x.2, x.1, x.4, x.3)).collect();
    let (_, t2, rb) = bounce(&rev);
    let whole = Glazing::combine_layers(&layers);
    let tol = 1e-7;
    ensure!((whole.tau() - t).abs() < tol, "transmittance {} but {} of the light gets through", whole.tau(), t);
    ensure!((whole.tau() - t2).abs() < tol, "transmittance {} but {} gets through backwards", whole.tau(), t2);
    ensure!((whole.rho_front() - rf).abs() < tol, "front reflectance {} but {} comes back", whole.rho_front(), rf);
    ensure!((whole.rho_back() - rb).abs() < tol, "back reflectance {} but {} comes back", whole.rho_back(), rb);
    let alphas = Glazing::alphas(&layers);
    ensure!(alphas.len() == n, "{} absorptances for {} layers", alphas.len(), n);
    let mut sum = whole.tau() + whole.rho_front();
    for i in 0..n {
        ensure!(alphas[i] > -1e-9, "layer {} absorbs {}", i, alphas[i]);
        ensure!((alphas[i] - abs[i]).abs() < tol, "layer {} is said to absorb {} but absorbs {}", i, alphas[i], abs[i]);
        sum += alphas[i];
    }
    ensure!((sum - 1.).abs() < tol, "transmitted + reflected + absorbed = {}", sum);
    if n > 1 {
        // grouping does not matter
        let k = 1 + c.rng.below(n - 1);
        let g = Glazing::combine_layers(&layers[..k]).combine(&Glazing::combine_layers(&layers[k..]));
        ensure!(
            (g.tau() - t).abs() < tol && (g.rho_front() - rf).abs() < tol && (g.rho_back() - rb).abs() < tol,
            "combining layers as {}+{} gives {:?}",
            k,
            n - k,
            g
        );
        let (a1, a2) = Glazing::combine_layers(&layers[..k]).combined_alphas(&Glazing::combine_layers(&layers[k..]));
        let (e1, e2): (f64, f64) = (abs[..k].iter().sum(), abs[k..].iter().sum());
        ensure!((a1 - e1).abs() < tol && (a2 - e2).abs() < tol, "first {} layers absorb {} (rest {}), not {} ({})", k, e1, e2, a1, a2);
    }
    c.seen(&format!("{} {:.3} {:.3}", n, t, rf));
    c.event("stacks", 1);
    Ok(())
}

/// wall with both sides in fixed ambient temperatures
fn lone(layers: Vec<Lay>, pts: Vec<Point3D>, fen: Option<FenestrationType>) -> House {
    House {
        vols: vec![],
        inf: vec![],
        walls: vec![Wall { layers, pts, front: B::Amb(20.), back: B::Amb(20.), fh: None, bh: None, fen }],
        hvacs: vec![],
        lums: vec![],
        terrain: None,
    }
}
fn nodes_of(n_elements: &[usize]) -> Vec<(usize, usize)> {
    // first and last node of every layer
    let mut out = vec![];
    let mut at = 0;
    for n in n_elements {
        let n = (*n).max(1);
        out.push((at, at + n));
        at += n;
    }
    out
}
fn absorbed(c: &mut Case) -> R {
    let glazed = c.rng.chance(0.7);
    let mut layers = if glazed { rnd_glazed(&mut c.rng) } else { rnd_opaque(&mut c.rng, true) };
    if glazed {
        for l in layers.iter_mut() {
            if let Lay::Solid { thick, .. } = l {
                if c.rng.chance(0.2) {
                    *thick = c.rng.range(0.02, 0.3); // a massive one
                }
            }
        }
        if c.rng.chance(0.3) {
            // a trombe wall
            layers.push(rnd_gas(&mut c.rng));
            layers.push(rnd_solid(&mut c.rng));
        }
    }
    c.desc(format!("{:?}", layers));
    let h = lone(layers.clone(), rnd_rect(&mut c.rng), None);
    let (m, mut st) = build(&h)?;
    let n = [1usize, 4, 6, 20][c.rng.below(4)];
    let tm = ThermalModel::new(&META, (), &m, &mut st, n).map_err(|e| format!("refused: {}", e))?;
    let s = &tm.surfaces[0];
    let nodes = nodes_of(&s.discretization.n_elements);
    let check = |side: &str, alphas: &matrix::Matrix, layers: &[Lay], nodes: &[(usize, usize)]| -> R {
        // layers seen from that side, until the first opaque one
        let mut stack = vec![];
        let mut idx = vec![];
        for (i, l) in layers.iter().enumerate() {
            if let Lay::Solid { tau, .. } = l {
                stack.push(quad(l));
                idx.push(i);
                if *tau == 0.0 {
                    break;
                }
            }
        }
        let (abs, ..) = bounce(&stack);
        let mut rest: f64 = (0..alphas.size().0).map(|i| alphas.get(i, 0).unwrap_or(f64::NAN)).sum();
        for (j, i) in idx.iter().enumerate() {
            let (a, b) = nodes[*i];
            // the nodes of a solid layer in a multi-layer opaque wall are shared; only judge the
            // layers the light reaches, which are separated by gases
            let got: f64 = (a..=b).map(|k| alphas.get(k, 0).unwrap_or(f64::NAN)).sum();
            ensure!((got - abs[j]).abs() < 1e-7, "{}: layer {} takes {} of the sun instead of {}", side, i, got, abs[j]);
            rest -= got;
        }
        ensure!(rest.abs() < 1e-9, "{}: layers the sun does not reach take {} of it", side, rest);
        Ok(())
    };
    check("front", &s.front_alphas, &layers, &nodes)?;
    let fl: Vec<Lay> = layers.iter().rev().map(|l| l.flipped()).collect();
    let fnodes: Vec<(usize, usize)> = nodes.iter().rev().cloned().collect();
    check("back", &s.back_alphas, &fl, &fnodes)?;
    c.event(if glazed { "glazed" } else { "opaque" }, 1);
    c.seen(&format!("{} {:?}", n, s.discretization.n_elements));
    Ok(())
}
/// constructions that make no sense, or that lack data: an error, never a crash
fn hostile_construction(c: &mut Case) -> R {
    let n = 1 + c.rng.below(5);
    let mut layers = vec![];
    for _ in 0..n {
        layers.push(match c.rng.below(4) {
            0 => rnd_gas(&mut c.rng),
            1 => rnd_glass(&mut c.rng),
            2 => {
                // exactly complementary, decimal values
                let a = c.rng.int(0, 10) as f64 / 10.;
                match rnd_glass(&mut c.rng) {
                    Lay::Solid { k, rho, cp, thick, ef, eb, .. } => {
                        Lay::Solid { k, rho, cp, thick, tau: a, af: (10. - a * 10.) / 10., ab: (10. - a * 10.) / 10., ef, eb }
                    }
                    g => g,
                }
            }
            _ => rnd_solid(&mut c.rng),
        });
    }
    let mut h = lone(layers.clone(), rnd_rect(&mut c.rng), None);
    if c.rng.chance(0.1) {
        h.walls[0].front = B::Ground;
    }
    if c.rng.chance(0.1) {
        h.walls[0].back = B::Ground;
    }
    let (mut m, mut st) = build(&h)?;
    let drop = c.rng.below(8);
    c.desc(format!("{:?} front {:?} back {:?} drop {}", layers, h.walls[0].front, h.walls[0].back, drop));
    if drop < 5 {
        // a substance lacking one value
        let i = c.rng.below(m.substances.len());
        let name = m.substances[i].name().clone();
        if let Lay::Solid { k, rho, cp, tau, af, ab, .. } = &layers[i] {
            let mut s = model::substance::Normal::new(name);
            if drop != 0 {
                s.set_thermal_conductivity(*k);
            }
            if drop != 1 {
                s.set_density(*rho);
            }
            if drop != 2 {
                s.set_specific_heat_capacity(*cp);
            }
            if drop != 3 {
                s.set_front_solar_absorbtance(*af);
                s.set_back_solar_absorbtance(*ab);
            }
            if drop != 4 {
                s.set_solar_transmittance(*tau);
            }
            m.substances[i] = s.wrap();
        }
    }
    let r = guarded(|| ThermalModel::new(&META, (), &m, &mut st, 4));
    match r {
        Err(p) => ensure!(false, "a construction crashed the thermal model: {}", p),
        Ok(Err(_)) => c.event("refused", 1),
        Ok(Ok(tm)) => {
            c.event("accepted", 1);
            let mut state = st.take_values().ok_or("no values")?;
            let mut al = tm.allocate_memory(&state)?;
            let w = constant_weather(10., 1., 0.);
            match guarded(|| tm.march(day(), &w, &m, &mut state, &mut al)) {
                Err(p) => ensure!(false, "an accepted construction crashed the simulation: {}", p),
                Ok(_) => {}
            }
            c.event("marched", 1);
        }
    }
    c.seen(&format!("{:?}", layers.iter().map(|l| matches!(l, Lay::Gas { .. })).collect::<Vec<_>>()));
    Ok(())
}

/* ------------------------------------------------------------------ H02 */

fn discretize(c: &mut Case) -> R {
    let layers = if c.rng.chance(0.3) { rnd_glazed(&mut c.rng) } else { rnd_opaque(&mut c.rng, true) };
    let mut m = Model::default();
    add_layers(&mut m, "c", &layers);
    let con = m.get_construction("c")?;
    let n = 1 + c.rng.below(30);
    let dt = 3600. / n as f64;
    let max_dx = c.rng.range(0.005, 0.1);
    let min_dt = c.rng.range(1., 120.);
    let angle = c.rng.range(0., std::f64::consts::PI);
    c.desc(format!("{:?} dt {} max_dx {} min_dt {} angle {}", layers, dt, max_dx, min_dt, angle));
    let d = Discretization::new(&con, &m, dt, max_dx, min_dt, 1., angle)?;
    ensure!(d.n_elements.len() == layers.len(), "{} layers but elements for {}", layers.len(), d.n_elements.len());
    let nodes: usize = d.n_elements.iter().map(|x| (*x).max(1)).sum::<usize>() + 1;
    ensure!(d.segments.len() == nodes, "{} nodes for elements {:?}", d.segments.len(), d.n_elements);
    let at = nodes_of(&d.n_elements);
    let mut mass = vec![0.0; nodes];
    for (i, l) in layers.iter().enumerate() {
        let (a, b) = at[i];
        match l {
            Lay::Solid { k, rho, cp, thick, .. } => {
                let mut r = 0.0;
                for s in a..b {
                    match &d.segments[s].1 {
                        UValue::Solid(u) => r += 1. / u,
                        x => ensure!(false, "segment {} of a solid layer is {:?}", s, x),
                    }
                }
                ensure!((r - thick / k).abs() < 1e-9 * (thick / k), "layer {}: R = {} instead of {}", i, r, thick / k);
                if d.n_elements[i] > 0 {
                    let e = rho * cp * thick / (b - a) as f64;
                    for s in a..b {
                        mass[s] += e / 2.;
                        mass[s + 1] += e / 2.;
                    }
                    ensure!(thick / (b - a) as f64 <= max_dx * (1. + 1e-9), "elements of layer {} are thicker than {}", i, max_dx);
                    let sub = dt / d.tstep_subdivision as f64;
                    // explicit integration of this layer must be stable, with up to 20 W/m2K at its sides
                    let dx = thick / (b - a) as f64;
                    let lambda = sub * (2. * k / dx + 20.) / (rho * cp * dx);
                    ensure!(lambda <= 2.0, "layer {} is unstable at {} s: {}", i, sub, lambda);
                    c.event("massive_layers", 1);
                } else {
                    c.event("light_layers", 1);
                }
            }
            Lay::Gas { kind, thick } => {
                ensure!(d.n_elements[i] == 0, "a gas has {} massive elements", d.n_elements[i]);
                match &d.segments[a].1 {
                    UValue::Cavity(cav) => {
                        let (eb, ef) = match (&layers[i - 1], &layers[i + 1]) {
                            (Lay::Solid { eb, .. }, Lay::Solid { ef, .. }) => (*eb, *ef),
                            _ => incon!("generator: gas at the border"),
                        };
                        let mass = [28.97, 39.948, 83.8, 131.3][*kind];
                        ensure!(
                            (cav.thickness - thick).abs() < 1e-12 && cav.angle == angle && (cav.gas.mass() - mass).abs() < 0.05,
                            "cavity {:?} for layer {:?}",
                            cav,
                            layers[i]
                        );
                        ensure!(
                            (cav.eout - eb).abs() < 1e-12 && (cav.ein - ef).abs() < 1e-12,
                            "cavity emissivities {} {} instead of {} {}",
                            cav.eout,
                            cav.ein,
                            eb,
                            ef
                        );
                        c.event("cavities", 1);
                    }
                    x => ensure!(false, "the cavity is {:?}", x),
                }
            }
        }
    }
    ensure!(matches!(d.segments[nodes - 1].1, UValue::Back), "the last node is followed by {:?}", d.segments[nodes - 1].1);
    for i in 0..nodes {
        ensure!((d.segments[i].0 - mass[i]).abs() <= 1e-9 * mass[i].max(1e-3), "node {} stores {} J/K instead of {}", i, d.segments[i].0, mass[i]);
    }
    // chunks: every node in exactly one, maximal, in order
    let (ma, no) = d.get_chunks();
    let mut owner = vec![0usize; nodes];
    for (list, is_mass) in [(&ma, true), (&no, false)] {
        let mut prev = 0;
        for (j, (a, b)) in list.iter().enumerate() {
            ensure!(a < b && *b <= nodes, "chunk {:?} of {} nodes", (a, b), nodes);
            ensure!(j == 0 || *a > prev, "chunks {:?} overlap, touch or are out of order", list);
            prev = *b;
            for i in *a..*b {
                owner[i] += 1;
                ensure!((mass[i] > 1e-5) == is_mass, "node {} (mass {}) is in the wrong kind of chunk", i, mass[i]);
            }
        }
    }
    ensure!(owner.iter().all(|x| *x == 1), "nodes are not in exactly one chunk: {:?}", owner);
    if !layers.iter().any(|l| matches!(l, Lay::Gas { .. })) {
        let e: f64 = layers.iter().map(|l| if let Lay::Solid { k, thick, .. } = l { thick / k } else { 0. }).sum();
        ensure!((d.r_value() - e).abs() < 1e-9 * e, "R-value {} instead of {}", d.r_value(), e);
    }
    c.seen(&format!("{:?} {}", d.n_elements, d.tstep_subdivision));
    Ok(())
}

/* ------------------------------------------------------------------ running models */

pub struct Run {
    pub m: Model,
    pub tm: ThermalModel,
    pub state: SimulationState,
    pub elements: Vec<SimulationStateElement>,
}
pub fn start(h: &House, n: usize) -> Result<Run, Fail> {
    let (m, mut st) = build(h)?;
    let tm = ThermalModel::new(&META, (), &m, &mut st, n).map_err(|e| Fail::Bad(format!("refused: {}", e)))?;
    let elements = st.elements.clone();
    let state = st.take_values().ok_or("no values")?;
    Ok(Run { m, tm, state, elements })
}
#[derive(Clone, Copy)]
struct Side {
    ir: f64,
    sun: f64,
}
impl Run {
    /// surfaces first, then the fenestrations
    fn order(h: &House) -> Vec<usize> {
        let mut a: Vec<usize> = (0..h.walls.len()).filter(|i| h.walls[*i].fen.is_none()).collect();
        let b: Vec<usize> = (0..h.walls.len()).filter(|i| h.walls[*i].fen.is_some()).collect();
        a.extend(b);
        a
    }
    fn irradiate(&mut self, h: &House, i: usize, f: Side, b: Side) -> R {
        let st = &mut self.state;
        if h.walls[i].fen.is_none() {
            let s = self.m.get_surface(format!("wall {}", i))?;
            s.set_front_incident_solar_irradiance(st, f.sun)?;
            s.set_back_incident_solar_irradiance(st, b.sun)?;
            s.set_front_ir_irradiance(st, f.ir)?;
            s.set_back_ir_irradiance(st, b.ir)?;
        } else {
            let s = self.m.get_fenestration(format!("fen {}", i))?;
            s.set_front_incident_solar_irradiance(st, f.sun)?;
            s.set_back_incident_solar_irradiance(st, b.sun)?;
            s.set_front_ir_irradiance(st, f.ir)?;
            s.set_back_ir_irradiance(st, b.ir)?;
        }
        Ok(())
    }
    fn node_range(&self, h: &House, i: usize) -> Result<(usize, usize), Fail> {
        if h.walls[i].fen.is_none() {
            let s = self.m.get_surface(format!("wall {}", i))?;
            Ok((SurfaceTrait::first_node_temperature_index(&*s), SurfaceTrait::last_node_temperature_index(&*s)))
        } else {
            let s = self.m.get_fenestration(format!("fen {}", i))?;
            Ok((SurfaceTrait::first_node_temperature_index(&*s), SurfaceTrait::last_node_temperature_index(&*s)))
        }
    }
    fn nodes(&self, h: &House, i: usize) -> Result<Vec<f64>, Fail> {
        let (a, b) = self.node_range(h, i)?;
        Ok(self.state[a..=b].to_vec())
    }
    /// (front h, back h, front flow, back flow)
    fn films(&self, h: &House, i: usize) -> Result<[f64; 4], Fail> {
        let st = &self.state;
        let f = |x: Option<f64>| x.ok_or(Fail::Bad("no convection state".into()));
        if h.walls[i].fen.is_none() {
            let s = self.m.get_surface(format!("wall {}", i))?;
            Ok([
                f(s.front_convection_coefficient(st))?,
                f(s.back_convection_coefficient(st))?,
                f(s.front_convective_heat_flow(st))?,
                f(s.back_convective_heat_flow(st))?,
            ])
        } else {
            let s = self.m.get_fenestration(format!("fen {}", i))?;
            Ok([
                f(s.front_convection_coefficient(st))?,
                f(s.back_convection_coefficient(st))?,
                f(s.front_convective_heat_flow(st))?,
                f(s.back_convective_heat_flow(st))?,
            ])
        }
    }
    fn zone(&self, i: usize) -> f64 {
        self.m.spaces[i].dry_bulb_temperature(&self.state).unwrap_or(f64::NAN)
    }
    fn set_zone(&mut self, i: usize, t: f64) -> R {
        self.m.spaces[i].set_dry_bulb_temperature(&mut self.state, t)?;
        Ok(())
    }
}
fn ir_of(t: f64) -> f64 {
    SIGMA * (t + 273.15).powi(4)
}
pub fn rnd_house(r: &mut Rng, sources: bool) -> House {
    let nz = 1 + r.below(3);
    let vols: Vec<f64> = (0..nz).map(|_| r.logu(5., 2000.)).collect();
    let nw = 1 + r.below(6);
    let mut walls = vec![];
    for _ in 0..nw {
        let fen = if r.chance(0.3) {
            Some(if r.chance(0.8) { FenestrationType::Window } else { FenestrationType::Door })
        } else {
            None
        };
        let layers = if r.chance(0.35) { rnd_glazed(r) } else { rnd_opaque(r, true) };
        let a = B::Space(r.below(nz));
        let b = match r.below(6) {
            0 | 1 | 2 => B::Out,
            3 => B::Space(r.below(nz)),
            4 => B::Amb(r.range(-5., 35.)),
            _ => B::Adiabatic,
        };
        let (front, back) = if r.chance(0.5) { (a, b) } else { (b, a) };
        let hs = |r: &mut Rng| if r.chance(0.3) { Some(r.range(1., 15.)) } else { None };
        walls.push(Wall { layers, pts: rnd_rect(r), front, back, fh: hs(r), bh: hs(r), fen });
    }
    let mut hvacs = vec![];
    let mut lums = vec![];
    if sources {
        for _ in 0..r.below(3) {
            hvacs.push((r.below(nz), r.chance(0.5)));
        }
        for _ in 0..r.below(3) {
            lums.push(r.below(nz));
        }
    }
    let terrain = match r.below(6) {
        0 => None,
        1 => Some(model::TerrainClass::Country),
        2 => Some(model::TerrainClass::Suburbs),
        3 => Some(model::TerrainClass::City),
        4 => Some(model::TerrainClass::Ocean),
        _ => Some(model::TerrainClass::Urban),
    };
    House { vols, inf: vec![None; nz], walls, hvacs, lums, terrain }
}

/* ------------------------------------------------------------------ H03: walls */

/// everything at one temperature, nothing happens
fn equilibrium(c: &mut Case) -> R {
    let t = c.rng.range(-20., 45.);
    let mut h = rnd_house(&mut c.rng, true);
    for w in h.walls.iter_mut() {
        for b in [&mut w.front, &mut w.back] {
            if let B::Amb(x) = b {
                *x = t;
            }
        }
    }
    let n = [1usize, 2, 4, 6, 12][c.rng.below(5)];
    let wind = c.rng.range(0., 15.);
    c.desc(format!("{} C, n {}, wind {}: {:?}", t, n, wind, h));
    let mut run = start(&h, n)?;
    for i in Run::order(&h) {
        run.irradiate(&h, i, Side { ir: ir_of(t), sun: 0. }, Side { ir: ir_of(t), sun: 0. })?;
        let (a, b) = run.node_range(&h, i)?;
        for k in a..=b {
            run.state[k] = t;
        }
    }
    for i in 0..h.vols.len() {
        run.set_zone(i, t)?;
    }
    let mut al = run.tm.allocate_memory(&run.state)?;
    let w = constant_weather(t, wind, c.rng.range(0., 6.28));
    for _ in 0..10 {
        run.tm.march(day(), &w, &run.m, &mut run.state, &mut al)?;
    }
    for i in Run::order(&h) {
        let ts = run.nodes(&h, i)?;
        ensure!(ts.iter().all(|x| (x - t).abs() < 1e-3), "wall {} drifts away from equilibrium: {:?}", i, ts);
        let f = run.films(&h, i)?;
        ensure!(f[2].abs() < 0.05 && f[3].abs() < 0.05, "wall {} exchanges heat at equilibrium: {:?}", i, f);
        c.event("walls", 1);
    }
    for i in 0..h.vols.len() {
        ensure!((run.zone(i) - t).abs() < 1e-3, "zone {} drifts to {}", i, run.zone(i));
    }
    c.seen(&format!("{:.2} {}", t, h.walls.len()));
    Ok(())
}

/// without heat sources no temperature leaves the range of those around it
fn bounds(c: &mut Case) -> R {
    let (lo, hi) = (c.rng.range(-15., 15.), c.rng.range(16., 45.));
    let mut h = rnd_house(&mut c.rng, false);
    let pick = |r: &mut Rng| match r.below(3) {
        0 => lo,
        1 => hi,
        _ => r.range(lo, hi),
    };
    for w in h.walls.iter_mut() {
        for b in [&mut w.front, &mut w.back] {
            if let B::Amb(x) = b {
                *x = pick(&mut c.rng);
            }
        }
    }
    let n = [1usize, 2, 4, 6, 12, 20][c.rng.below(6)];
    let wind = if c.rng.chance(0.5) { 0. } else { c.rng.range(0., 8.) };
    let t_out = pick(&mut c.rng);
    c.desc(format!("[{}, {}] C, out {}, n {}, wind {}: {:?}", lo, hi, t_out, n, wind, h));
    let mut run = start(&h, n)?;
    for i in Run::order(&h) {
        let (a, b) = (pick(&mut c.rng), pick(&mut c.rng));
        run.irradiate(&h, i, Side { ir: ir_of(a), sun: 0. }, Side { ir: ir_of(b), sun: 0. })?;
        let (a, b) = run.node_range(&h, i)?;
        for k in a..=b {
            run.state[k] = pick(&mut c.rng);
        }
    }
    for i in 0..h.vols.len() {
        let t = pick(&mut c.rng);
        run.set_zone(i, t)?;
    }
    let mut al = run.tm.allocate_memory(&run.state)?;
    let w = constant_weather(t_out, wind, c.rng.range(0., 6.28));
    let slack = 0.5;
    for step in 0..30 {
        run.tm.march(day(), &w, &run.m, &mut run.state, &mut al)?;
        for i in Run::order(&h) {
            let ts = run.nodes(&h, i)?;
            ensure!(
                ts.iter().all(|x| *x > lo - slack && *x < hi + slack),
                "step {}: wall {} gets outside of the range: {:?}",
                step,
                i,
                ts
            );
            let f = run.films(&h, i)?;
            ensure!(f[0] >= 0.1 && f[1] >= 0.1 && f[0] < 500. && f[1] < 500., "convection coefficients {:?}", f);
        }
        for i in 0..h.vols.len() {
            let t = run.zone(i);
            ensure!(t > lo - slack && t < hi + slack, "step {}: zone {} gets to {}", step, i, t);
        }
        c.event("steps", 1);
    }
    c.seen(&format!("{:.2} {:.2} {}", lo, hi, h.walls.len()));
    Ok(())
}

/// the same building described with some of its walls seen from the other side behaves the same
fn mirror(c: &mut Case) -> R {
    let mut h = rnd_house(&mut c.rng, false);
    for w in h.walls.iter_mut() {
        for b in [&mut w.front, &mut w.back] {
            if *b == B::Adiabatic {
                *b = B::Out;
            }
        }
    }
    let mut g = h.clone();
    let mut flipped = vec![false; h.walls.len()];
    for (i, w) in g.walls.iter_mut().enumerate() {
        if c.rng.chance(0.7) {
            *w = w.flipped();
            flipped[i] = true;
        }
    }
    let n = [2usize, 4, 6][c.rng.below(3)];
    let wind = if c.rng.chance(0.3) { 0. } else { c.rng.range(0., 10.) };
    let dir = c.rng.range(0., 6.28);
    let t_out = c.rng.range(-5., 35.);
    c.desc(format!("out {} n {} wind {} {} flipped {:?}: {:?}", t_out, n, wind, dir, flipped, h));
    let mut r1 = start(&h, n)?;
    let mut r2 = start(&g, n)?;
    for i in Run::order(&h) {
        let f = Side { ir: ir_of(c.rng.range(-10., 30.)), sun: if c.rng.chance(0.5) { 0. } else { c.rng.range(-50., 800.) } };
        let b = Side { ir: ir_of(c.rng.range(-10., 30.)), sun: if c.rng.chance(0.5) { 0. } else { c.rng.range(-50., 800.) } };
        r1.irradiate(&h, i, f, b)?;
        if flipped[i] {
            r2.irradiate(&g, i, b, f)?;
        } else {
            r2.irradiate(&g, i, f, b)?;
        }
        let (a1, b1) = r1.node_range(&h, i)?;
        let (a2, b2) = r2.node_range(&g, i)?;
        ensure!(b1 - a1 == b2 - a2, "wall {} has {} or {} nodes depending on the side it is described from", i, b1 - a1 + 1, b2 - a2 + 1);
        for k in 0..=(b1 - a1) {
            let t = c.rng.range(0., 35.);
            r1.state[a1 + k] = t;
            if flipped[i] {
                r2.state[b2 - k] = t;
            } else {
                r2.state[a2 + k] = t;
            }
        }
    }
    for i in 0..h.vols.len() {
        let t = c.rng.range(10., 30.);
        r1.set_zone(i, t)?;
        r2.set_zone(i, t)?;
    }
    // one time step for both
    r2.tm.dt = r1.tm.dt;
    r2.tm.dt_subdivisions = r1.tm.dt_subdivisions;
    let mut al1 = r1.tm.allocate_memory(&r1.state)?;
    let mut al2 = r2.tm.allocate_memory(&r2.state)?;
    let w = constant_weather(t_out, wind, dir);
    for step in 0..8 {
        r1.tm.march(day(), &w, &r1.m, &mut r1.state, &mut al1)?;
        r2.tm.march(day(), &w, &r2.m, &mut r2.state, &mut al2)?;
        for i in Run::order(&h) {
            let t1 = r1.nodes(&h, i)?;
            let mut t2 = r2.nodes(&g, i)?;
            let f1 = r1.films(&h, i)?;
            let mut f2 = r2.films(&g, i)?;
            if flipped[i] {
                t2.reverse();
                f2 = [f2[1], f2[0], f2[3], f2[2]];
            }
            for k in 0..t1.len() {
                ensure!((t1[k] - t2[k]).abs() < 1e-5, "step {}: wall {} {:?} / {:?} seen from the other side", step, i, t1, t2);
            }
            for k in 0..2 {
                ensure!(
                    (f1[k] - f2[k]).abs() < 1e-4 * (1. + f1[k].abs()),
                    "step {}: wall {} convection {:?} / {:?} seen from the other side",
                    step,
                    i,
                    f1,
                    f2
                );
            }
            c.event("compared", 1);
        }
        for i in 0..h.vols.len() {
            ensure!((r1.zone(i) - r2.zone(i)).abs() < 1e-5, "step {}: zone {} {} / {}", step, i, r1.zone(i), r2.zone(i));
        }
    }
    c.seen(&format!("{:?} {:.2}", flipped, t_out));
    Ok(())
}

/// the heat stored by every node of a massive wall changes by what flows into it
fn rates(c: &mut Case) -> R {
    let nl = 1 + c.rng.below(4);
    let mut layers = vec![];
    while layers.len() < nl {
        let l = match c.rng.below(2) {
            0 => rnd_solid(&mut c.rng),
            _ => Lay::Solid {
                k: c.rng.range(0.5, 2.0),
                rho: c.rng.range(1200., 2400.),
                cp: c.rng.range(700., 1100.),
                thick: c.rng.range(0.1, 0.35),
                tau: 0.0,
                af: c.rng.range(0.05, 0.95),
                ab: c.rng.range(0.05, 0.95),
                ef: c.rng.range(0.02, 0.95),
                eb: c.rng.range(0.02, 0.95),
            },
        };
        layers.push(l);
    }
    let (tz, ta, tb, to) = (c.rng.range(-5., 40.), c.rng.range(-5., 40.), c.rng.range(-5., 40.), c.rng.range(-5., 40.));
    let side = |r: &mut Rng, t: f64| match r.below(3) {
        0 => B::Out,
        1 => B::Space(0),
        _ => B::Amb(t),
    };
    let (hf, hb) = (c.rng.range(1., 20.), c.rng.range(1., 20.));
    let fen = if c.rng.chance(0.3) { Some(FenestrationType::Door) } else { None };
    let wall = Wall {
        layers: layers.clone(),
        pts: rnd_rect(&mut c.rng),
        front: side(&mut c.rng, ta),
        back: side(&mut c.rng, tb),
        fh: Some(hf),
        bh: Some(hb),
        fen,
    };
    let h = House { vols: vec![1e7], inf: vec![None], walls: vec![wall.clone()], hvacs: vec![], lums: vec![], terrain: None };
    let n = [4usize, 6, 12][c.rng.below(3)];
    let mut run = start(&h, n)?;
    let d = if fen.is_some() { run.tm.fenestrations[0].discretization.clone() } else { run.tm.surfaces[0].discretization.clone() };
    let nn = d.segments.len();
    // every element must be massive for the explicit comparison
    let mut cap = vec![0.0; nn];
    let mut cond = vec![0.0; nn];
    let at = nodes_of(&d.n_elements);
    for (i, l) in layers.iter().enumerate() {
        if let Lay::Solid { k, rho, cp, thick, .. } = l {
            let (a, b) = at[i];
            let dx = thick / (b - a) as f64;
            for s in a..b {
                cond[s] = k / dx;
                if d.n_elements[i] > 0 {
                    cap[s] += rho * cp * dx / 2.;
                    cap[s + 1] += rho * cp * dx / 2.;
                }
            }
        }
    }
    if cap.iter().any(|x| *x <= 0.) {
        c.event("skipped_light", 1);
        return Ok(());
    }
    let f = Side { ir: ir_of(c.rng.range(-10., 40.)), sun: if c.rng.chance(0.3) { 0. } else { c.rng.range(0., 900.) } };
    let b = Side { ir: ir_of(c.rng.range(-10., 40.)), sun: if c.rng.chance(0.3) { 0. } else { c.rng.range(0., 900.) } };
    c.desc(format!("zone {} out {} {:?} front {}/{} back {}/{}", tz, to, wall, f.ir, f.sun, b.ir, b.sun));
    run.irradiate(&h, 0, f, b)?;
    let (i0, i1) = run.node_range(&h, 0)?;
    let mut t0 = vec![];
    for k in i0..=i1 {
        let t = c.rng.range(-5., 45.);
        run.state[k] = t;
        t0.push(t);
    }
    run.set_zone(0, tz)?;
    let dt = 2.0;
    run.tm.dt = dt;
    run.tm.dt_subdivisions = 1;
    let mut al = run.tm.allocate_memory(&run.state)?;
    run.tm.march(day(), &constant_weather(to, c.rng.range(0., 5.), 1.), &run.m, &mut run.state, &mut al)?;
    let t1 = run.nodes(&h, 0)?;
    // what flows into every node
    let (em_f, em_b, al_f, al_b) = match (&layers[0], layers.last()) {
        (Lay::Solid { ef, af, .. }, Some(Lay::Solid { eb, ab, .. })) => (*ef, *eb, *af, *ab),
        _ => incon!("generator"),
    };
    let env = |b: &B, ir: f64| match b {
        B::Out => (to, ir),
        B::Space(_) => (tz, ir_of(tz)),
        B::Amb(t) => (*t, ir_of(*t)),
        _ => (0., 0.),
    };
    let (taf, irf) = env(&wall.front, f.ir);
    let (tab, irb) = env(&wall.back, b.ir);
    // the solver is only asked to be accurate where its step resolves the wall
    let fastest = (0..nn).map(|s| (cond[s] + if s > 0 { cond[s - 1] } else { 0. }) * dt / cap[s]).fold(0.0, f64::max);
    if fastest > 0.2 {
        c.event("skipped_stiff", 1);
        return Ok(());
    }
    let rad = [em_f * (irf - ir_of(t0[0])), em_b * (irb - ir_of(t0[nn - 1]))];
    let mut t = t0.clone();
    let sub = 100;
    for _ in 0..sub {
        let mut q = vec![0.0; nn];
        for s in 0..nn - 1 {
            let x = cond[s] * (t[s] - t[s + 1]);
            q[s] -= x;
            q[s + 1] += x;
        }
        q[0] += hf * (taf - t[0]) + em_f * (irf - ir_of(t[0])) + al_f * f.sun;
        q[nn - 1] += hb * (tab - t[nn - 1]) + em_b * (irb - ir_of(t[nn - 1])) + al_b * b.sun;
        for s in 0..nn {
            t[s] += q[s] / cap[s] * dt / sub as f64;
        }
    }
    let scale: f64 = (0..nn).map(|s| (t[s] - t0[s]).abs()).fold(0.0, f64::max);
    for s in 0..nn {
        let (e, g) = (t[s] - t0[s], t1[s] - t0[s]);
        let tol = 0.02 * e.abs() + 0.005 * scale * (dt * (cond[s] + if s > 0 { cond[s - 1] } else { 0. }) / cap[s]).min(1.) + 1e-5
            // (radiation is linearised)
            + if s == 0 { 0.01 * rad[0].abs() * dt / cap[s] } else { 0. }
            + if s == nn - 1 { 0.01 * rad[1].abs() * dt / cap[s] } else { 0. };
        ensure!(
            (e - g).abs() <= tol,
            "node {} of {} changes by {} in {} s, but the heat flowing into it makes {} (all: {:?} expected {:?}, from {:?})",
            s,
            nn,
            g,
            dt,
            e,
            t1,
            t,
            t0
        );
    }
    c.event("walls", 1);
    if f.sun > 0. || b.sun > 0. {
        c.event("sunny", 1);
    }
    c.seen(&format!("{} {:.2}", nn, scale));
    Ok(())
}

/// left alone long enough, every wall conducts what enters it: heat in = heat out (+ sun absorbed)
fn steady(c: &mut Case) -> R {
    let glazed = c.rng.chance(0.4);
    let mut layers = if glazed { rnd_glazed(&mut c.rng) } else { rnd_opaque(&mut c.rng, true) };
    for l in layers.iter_mut() {
        if let Lay::Solid { rho, .. } = l {
            *rho = rho.min(300.); // to get there soon
        }
    }
    let (ta, tb) = (c.rng.range(-10., 40.), c.rng.range(-10., 40.));
    let (hf, hb) = (c.rng.range(4., 20.), c.rng.range(4., 20.));
    let wall = Wall {
        layers: layers.clone(),
        pts: rnd_rect(&mut c.rng),
        front: B::Amb(ta),
        back: B::Amb(tb),
        fh: Some(hf),
        bh: Some(hb),
        fen: if glazed { Some(FenestrationType::Window) } else { None },
    };
    let h = House { vols: vec![100.], inf: vec![None], walls: vec![wall.clone()], hvacs: vec![], lums: vec![], terrain: None };
    let n = [4usize, 6, 12][c.rng.below(3)];
    let mut run = start(&h, n)?;
    let sun = |r: &mut Rng| if r.chance(0.5) { 0. } else { r.range(0., 600.) };
    let f = Side { ir: ir_of(10.), sun: sun(&mut c.rng) };
    let b = Side { ir: ir_of(10.), sun: sun(&mut c.rng) };
    c.desc(format!("n {} sun {} {}: {:?}", n, f.sun, b.sun, wall));
    run.irradiate(&h, 0, f, b)?;
    let mut al = run.tm.allocate_memory(&run.state)?;
    let w = constant_weather(15., 0., 0.);
    let mut last = run.nodes(&h, 0)?;
    let mut settled = false;
    for _ in 0..400 {
        for _ in 0..20 {
            run.tm.march(day(), &w, &run.m, &mut run.state, &mut al)?;
        }
        let now = run.nodes(&h, 0)?;
        let d = now.iter().zip(last.iter()).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
        last = now;
        if d < 1e-7 {
            settled = true;
            break;
        }
    }
    if !settled {
        c.event("not_settled", 1);
        return Ok(());
    }
    let t = last;
    let nn = t.len();
    // total absorbed
    let stack: Vec<_> = {
        let mut v = vec![];
        for l in &layers {
            if let Lay::Solid { tau, .. } = l {
                v.push(quad(l));
                if *tau == 0. {
                    break;
                }
            }
        }
        v
    };
    let fl: Vec<Lay> = layers.iter().rev().map(|l| l.flipped()).collect();
    let stack_b: Vec<_> = {
        let mut v = vec![];
        for l in &fl {
            if let Lay::Solid { tau, .. } = l {
                v.push(quad(l));
                if *tau == 0. {
                    break;
                }
            }
        }
        v
    };
    let absorbed = f.sun * bounce(&stack).0.iter().sum::<f64>() + b.sun * bounce(&stack_b).0.iter().sum::<f64>();
    let (em_f, em_b) = match (&layers[0], layers.last()) {
        (Lay::Solid { ef, .. }, Some(Lay::Solid { eb, .. })) => (*ef, *eb),
        _ => incon!("generator"),
    };
    let qf = hf * (ta - t[0]) + em_f * (ir_of(ta) - ir_of(t[0]));
    let qb = hb * (tb - t[nn - 1]) + em_b * (ir_of(tb) - ir_of(t[nn - 1]));
    // film exchange uncertain by 0.02 K (the solver's tolerance) and by 1% of the linearised radiation
    let tol = 0.08 * (hf + hb + 12.) + 0.02 * (em_f * (ir_of(ta) - ir_of(t[0])).abs() + em_b * (ir_of(tb) - ir_of(t[nn - 1])).abs());
    ensure!(
        (qf + qb + absorbed).abs() <= tol,
        "in a steady state the wall gets {} at its front, {} at its back and {} from the sun (sum {}); temperatures {:?}",
        qf,
        qb,
        absorbed,
        qf + qb + absorbed,
        t
    );
    if f.sun == 0. && b.sun == 0. && !layers.iter().any(|l| matches!(l, Lay::Gas { .. })) {
        let r: f64 = layers.iter().map(|l| if let Lay::Solid { k, thick, .. } = l { thick / k } else { 0. }).sum();
        let q = (t[0] - t[nn - 1]) / r;
        ensure!((q - qf).abs() <= tol + 0.03 / r, "a steady wall conducts {} W/m2 but takes {} from its front", q, qf);
        c.event("u_values", 1);
    }
    c.event("steady", 1);
    c.seen(&format!("{} {:.2} {:.2}", nn, ta, tb));
    Ok(())
}

/* ------------------------------------------------------------------ H04: zones */

fn zones(c: &mut Case) -> R {
    let mut h = rnd_house(&mut c.rng, true);
    let nz = h.vols.len();
    // sometimes a zone nothing is attached to
    if c.rng.chance(0.3) {
        h.vols.push(c.rng.logu(5., 500.));
        h.inf.push(None);
        h.hvacs.push((nz, true));
    }
    if c.rng.chance(0.3) {
        h.walls.push(Wall {
            layers: vec![],
            pts: rnd_rect(&mut c.rng),
            front: B::Out,
            back: B::Space(0),
            fh: None,
            bh: None,
            fen: Some(FenestrationType::Opening),
        });
        let k = c.rng.below(h.walls.len());
        let l = h.walls.len() - 1;
        h.walls.swap(k, l);
    }
    let nz = h.vols.len();
    let (m, mut st) = build(&h)?;
    // air exchange states, as the air module would add them
    let mut air = vec![];
    for i in 0..nz {
        let s = &m.spaces[i];
        let mut e = [None, None];
        if c.rng.chance(0.5) {
            let (v, t) = (c.rng.range(0., 0.3), c.rng.range(-10., 40.));
            let k = st.push(SimulationStateElement::SpaceInfiltrationVolume(i), v)?;
            s.set_infiltration_volume_index(k)?;
            let k = st.push(SimulationStateElement::SpaceInfiltrationTemperature(i), t)?;
            s.set_infiltration_temperature_index(k)?;
            e[0] = Some((v, t));
        }
        if c.rng.chance(0.3) {
            let (v, t) = (c.rng.range(0., 0.3), c.rng.range(-10., 40.));
            let k = st.push(SimulationStateElement::SpaceVentilationVolume(i), v)?;
            s.set_ventilation_volume_index(k)?;
            let k = st.push(SimulationStateElement::SpaceVentilationTemperature(i), t)?;
            s.set_ventilation_temperature_index(k)?;
            e[1] = Some((v, t));
        }
        air.push(e);
    }
    let n = [1usize, 4, 6, 12][c.rng.below(4)];
    let tm = ThermalModel::new(&META, (), &m, &mut st, n).map_err(|e| format!("refused: {}", e))?;
    ensure!(
        (tm.dt * tm.dt_subdivisions as f64 - 3600. / n as f64).abs() < 1e-6,
        "{} sub-steps of {} s do not make 1/{} hour",
        tm.dt_subdivisions,
        tm.dt,
        n
    );
    ensure!(tm.zones.len() == nz, "{} zones for {} spaces", tm.zones.len(), nz);
    let elements = st.elements.clone();
    let state = st.take_values().ok_or("no values")?;
    let mut run = Run { m, tm, state, elements };
    let mut q = vec![0.0; nz];
    for (i, (sp, ideal)) in h.hvacs.iter().enumerate() {
        let p = if *ideal { c.rng.range(-3000., 3000.) } else { c.rng.range(0., 3000.) };
        match &run.m.hvacs[i] {
            model::HVAC::ElectricHeater(x) => x.set_heating_cooling_consumption(&mut run.state, p)?,
            model::HVAC::IdealHeaterCooler(x) => x.set_heating_cooling_consumption(&mut run.state, p)?,
        }
        q[*sp] += p;
    }
    for (i, sp) in h.lums.iter().enumerate() {
        let p = c.rng.range(0., 1000.);
        run.m.luminaires[i].set_power_consumption(&mut run.state, p)?;
        q[*sp] += p;
    }
    let order: Vec<usize> = Run::order(&h).into_iter().filter(|i| h.walls[*i].fen != Some(FenestrationType::Opening)).collect();
    for i in order.iter() {
        run.irradiate(&h, *i, Side { ir: ir_of(10.), sun: c.rng.range(0., 300.) }, Side { ir: ir_of(10.), sun: 0. })?;
        let (a, b) = run.node_range(&h, *i)?;
        for k in a..=b {
            run.state[k] = c.rng.range(5., 35.);
        }
    }
    let mut t0 = vec![];
    for i in 0..nz {
        let t = c.rng.range(5., 35.);
        run.set_zone(i, t)?;
        t0.push(t);
    }
    let to = c.rng.range(-5., 35.);
    c.desc(format!("zones {:?} out {} power {:?} air {:?} n {}: {:?}", t0, to, q, air, n, h));
    // never longer than the step chosen by the model, which the walls need
    let dt = c.rng.pick(&[1f64, 10., 60., 300.]).min(run.tm.dt);
    run.tm.dt = dt;
    run.tm.dt_subdivisions = 1;
    let mut al = run.tm.allocate_memory(&run.state)?;
    run.tm.march(day(), &constant_weather(to, 2., 1.), &run.m, &mut run.state, &mut al)?;
    // the heat balance of every zone, with the surface temperatures and films the step ended with
    for z in 0..nz {
        let (mut a, mut b) = (q[z], 0.0);
        for i in order.iter() {
            let w = &h.walls[*i];
            let area = {
                let p = &w.pts;
                let (u, v): (Vector3D, Vector3D) = (p[1] - p[0], p[3] - p[0]);
                u.length() * v.length()
            };
            let ts = run.nodes(&h, *i)?;
            let f = run.films(&h, *i)?;
            if w.front == B::Space(z) {
                a += f[0] * area * ts[0];
                b += f[0] * area;
            }
            if w.back == B::Space(z) {
                a += f[1] * area * ts[ts.len() - 1];
                b += f[1] * area;
            }
        }
        for e in air[z].iter().flatten() {
            let (v, t) = e;
            let k = 101325. * 28.97 / (8314.46 * (t + 273.15)) * (1002.737 + 1.2324e-2 * (t + 273.15));
            a += v * k * t;
            b += v * k;
        }
        let cap = h.vols[z] * 101325. * 28.97 / (8314.46 * (t0[z] + 273.15)) * (1002.737 + 1.2324e-2 * (t0[z] + 273.15));
        // C dT/dt = a - b T
        let e = if b > 1e-6 {
            let x = -b * dt / cap;
            t0[z] * x.exp() + a / b * (-x.exp_m1())
        } else {
            t0[z] + a * dt / cap
        };
        let got = run.zone(z);
        ensure!((e - got).abs() < 1e-4 * (1. + (e - t0[z]).abs()), "zone {} goes from {} to {}, but its heat balance gives {}", z, t0[z], got, e);
        c.event("zones", 1);
        if b <= 1e-6 {
            c.event("isolated", 1);
        }
    }
    // reported heat flows
    for i in order.iter() {
        let w = &h.walls[*i];
        let ts = run.nodes(&h, *i)?;
        let f = run.films(&h, *i)?;
        let air_t = |b: &B| match b {
            B::Out => Some(to),
            B::Space(z) => Some(t0[*z]),
            B::Amb(t) => Some(*t),
            _ => None,
        };
        for (b, t, hs, flow) in [(&w.front, ts[0], f[0], f[2]), (&w.back, ts[ts.len() - 1], f[1], f[3])] {
            if let Some(ta) = air_t(b) {
                ensure!((flow - hs * (t - ta)).abs() < 1e-6 * (1. + flow.abs()), "wall {} reports a flow of {} W/m2 for {} W/m2K and {} -> {} C", i, flow, hs, t, ta);
                c.event("flows", 1);
            }
        }
    }
    c.seen(&format!("{} {} {:.2}", nz, h.walls.len(), to));
    Ok(())
}

/// the order in which spaces and walls are listed does not matter
fn permuted(c: &mut Case) -> R {
    let h = rnd_house(&mut c.rng, true);
    let nz = h.vols.len();
    let mut zp: Vec<usize> = (0..nz).collect();
    c.rng.shuffle(&mut zp); // new position of zone i
    let mut wp: Vec<usize> = (0..h.walls.len()).collect();
    c.rng.shuffle(&mut wp); // wall at position j is the old wp[j]
    let mut g = h.clone();
    for i in 0..nz {
        g.vols[zp[i]] = h.vols[i];
    }
    let map = |b: &B| match b {
        B::Space(i) => B::Space(zp[*i]),
        x => x.clone(),
    };
    g.walls = wp
        .iter()
        .map(|i| {
            let mut w = h.walls[*i].clone();
            w.front = map(&w.front);
            w.back = map(&w.back);
            w
        })
        .collect();
    g.hvacs = h.hvacs.iter().map(|(s, x)| (zp[*s], *x)).collect();
    g.lums = h.lums.iter().map(|s| zp[*s]).collect();
    let n = [2usize, 4, 6][c.rng.below(3)];
    let (to, wind) = (c.rng.range(-5., 35.), c.rng.range(0., 8.));
    c.desc(format!("out {} wind {} zones {:?} walls {:?}: {:?}", to, wind, zp, wp, h));
    let mut r1 = start(&h, n)?;
    let mut r2 = start(&g, n)?;
    ensure!(r1.tm.dt == r2.tm.dt, "time steps {} {}", r1.tm.dt, r2.tm.dt);
    for (j, i) in wp.iter().enumerate() {
        let s = Side { ir: ir_of(c.rng.range(-10., 30.)), sun: c.rng.range(0., 500.) };
        r1.irradiate(&h, *i, s, s)?;
        r2.irradiate(&g, j, s, s)?;
    }
    for i in 0..nz {
        let t = c.rng.range(10., 30.);
        r1.set_zone(i, t)?;
        r2.set_zone(zp[i], t)?;
    }
    for i in 0..h.hvacs.len() {
        let p = c.rng.range(0., 2.) * h.vols[h.hvacs[i].0];
        for r in [&mut r1, &mut r2] {
            match &r.m.hvacs[i] {
                model::HVAC::ElectricHeater(x) => x.set_heating_cooling_consumption(&mut r.state, p)?,
                model::HVAC::IdealHeaterCooler(x) => x.set_heating_cooling_consumption(&mut r.state, p)?,
            }
        }
    }
    for i in 0..h.lums.len() {
        let p = c.rng.range(0., 2.) * h.vols[h.lums[i]];
        for r in [&mut r1, &mut r2] {
            r.m.luminaires[i].set_power_consumption(&mut r.state, p)?;
        }
    }
    let mut al1 = r1.tm.allocate_memory(&r1.state)?;
    let mut al2 = r2.tm.allocate_memory(&r2.state)?;
    let w = constant_weather(to, wind, 2.);
    for _ in 0..6 {
        r1.tm.march(day(), &w, &r1.m, &mut r1.state, &mut al1)?;
        r2.tm.march(day(), &w, &r2.m, &mut r2.state, &mut al2)?;
    }
    for i in 0..nz {
        ensure!((r1.zone(i) - r2.zone(zp[i])).abs() < 1e-6, "zone {}: {} or {} depending on the order", i, r1.zone(i), r2.zone(zp[i]));
    }
    for (j, i) in wp.iter().enumerate() {
        let (a, b) = (r1.nodes(&h, *i)?, r2.nodes(&g, j)?);
        ensure!(a.iter().zip(b.iter()).all(|(x, y)| (x - y).abs() < 1e-6), "wall {}: {:?} or {:?} depending on the order", i, a, b);
        c.event("walls", 1);
    }
    c.seen(&format!("{:?} {:?} {:.1}", zp, wp, to));
    Ok(())
}

/* ------------------------------------------------------------------ H05: films and cavities */

fn cavities(c: &mut Case) -> R {
    let kind = c.rng.below(4);
    let gas = [heat::gas::AIR, heat::gas::ARGON, heat::gas::KRYPTON, heat::gas::XENON][kind].clone();
    let thick = c.rng.logu(0.004, 0.1);
    let height = c.rng.range(0.3, 4.);
    let pi = std::f64::consts::PI;
    let angle = match c.rng.below(6) {
        0 => 0.,
        1 => pi,
        2 => pi / 2.,
        3 => *c.rng.pick(&[pi / 3., 2. * pi / 3., 1e-9, pi - 1e-9]),
        _ => c.rng.range(0., pi),
    };
    let (ein, eout) = (c.rng.range(0.02, 0.95), c.rng.range(0.02, 0.95));
    let tf = c.rng.range(-20., 60.);
    let tb = match c.rng.below(4) {
        0 => tf,
        1 => tf + c.rng.range(-0.01, 0.01),
        _ => c.rng.range(-20., 60.),
    };
    c.desc(format!("gas {} {} m thick {} m high at {} rad, {} -> {} C, e {} {}", kind, thick, height, angle, tf, tb, ein, eout));
    let cav = Cavity { thickness: thick, height, gas: gas.clone(), eout, ein, angle };
    let u = cav.u_value(tf, tb);
    let tm = (tf + tb) / 2. + 273.15;
    let cond = gas.thermal_conductivity(tm) / thick;
    let rad = 4. * SIGMA * tm.powi(3) / (1. / ein + 1. / eout - 1.);
    ensure!(u.is_finite(), "U = {}", u);
    ensure!(u >= (cond + rad) * (1. - 1e-9), "the cavity transfers {} W/m2K, less than its still gas and radiation ({} + {})", u, cond, rad);
    ensure!(u < cond * 40. + rad, "U = {} ({} + {})", u, cond, rad);
    // properties of the gases at 0 C (ISO 15099)
    let k0 = [0.02407, 0.01635, 0.00866, 0.00516][kind];
    let rho0 = [1.2928, 1.7827, 3.7396, 5.8594][kind];
    let cp0 = [1006.1, 521.93, 248.09, 158.34][kind];
    let mu0 = [1.722e-5, 2.1e-5, 2.3455e-5, 2.132e-5][kind];
    ensure!((gas.thermal_conductivity(273.15) / k0 - 1.).abs() < 0.01, "conductivity {} of gas {}", gas.thermal_conductivity(273.15), kind);
    ensure!((gas.density(273.15) / rho0 - 1.).abs() < 0.01, "density {} of gas {}", gas.density(273.15), kind);
    ensure!((gas.heat_capacity(273.15) / cp0 - 1.).abs() < 0.01, "heat capacity {} of gas {}", gas.heat_capacity(273.15), kind);
    ensure!((gas.dynamic_viscosity(273.15) / mu0 - 1.).abs() < 0.02, "viscosity {} of gas {}", gas.dynamic_viscosity(273.15), kind);
    // seen from the other side
    let other = Cavity { thickness: thick, height, gas: gas.clone(), eout: ein, ein: eout, angle: pi - angle };
    let u2 = other.u_value(tb, tf);
    if (angle - pi / 3.).abs() > 0.01 && (angle - 2. * pi / 3.).abs() > 0.01 && (angle - pi / 2.).abs() > 0.01 {
        ensure!((u - u2).abs() < 1e-6 * u, "U = {} but {} seen from the other side", u, u2);
        c.event("mirrored", 1);
    }
    // warm side on top: the gas does not move
    let top_warm = (angle < 1e-6 && tf > tb + 1e-6) || (angle > pi - 1e-6 && tb > tf + 1e-6);
    if top_warm {
        ensure!((u - cond - rad).abs() < 0.02 * cond * 5., "a horizontal cavity heated from above transfers {} W/m2K instead of {} + {}", u, cond, rad);
        c.event("heated_from_above", 1);
    }
    if (tf - tb).abs() < 1e-9 {
        ensure!((u - cond - rad).abs() < 1e-3 * u, "an isothermal cavity transfers {} W/m2K instead of {} + {}", u, cond, rad);
        c.event("isothermal", 1);
    }
    // small changes, small effects (away from the borders between the correlations)
    let g = angle * 180. / pi;
    if ![60., 90., 120., 60.5, 59.5, 89.5, 90.5, 119.5, 120.5].iter().any(|x: &f64| (x - g).abs() < 0.05) && (tf - tb).abs() > 0.1 {
        let u3 = Cavity { angle: (angle + if angle > 3. { -1e-6 } else { 1e-6 }), ..cav.clone() }.u_value(tf, tb);
        ensure!((u - u3).abs() < 0.01 * u, "turning the cavity by 1e-6 rad changes U from {} to {}", u, u3);
        c.event("turned", 1);
    }
    // ISO 15099 at any tilt (heated from below up to 90 degrees), within the range of each correlation
    let g = if tf > tb { pi - angle } else { angle };
    let deg = g * 180. / pi;
    let (at60, at90) = ((deg - 60.).abs() < 1e-6, (deg - 90.).abs() < 1e-6);
    let near = !at60 && !at90 && ((deg - 60.).abs() < 1. || (deg - 90.).abs() < 1.);
    if !near && (tf - tb).abs() > 0.1 {
        let ra = gas.density(tm).powi(2) * thick.powi(3) * 9.81 / tm * gas.heat_capacity(tm) * (tf - tb).abs()
            / (gas.dynamic_viscosity(tm) * gas.thermal_conductivity(tm));
        let slender = height / thick;
        let nu90 = {
            let n1 = if ra <= 1e4 {
                1. + 1.7596678e-10 * ra.powf(2.2984755)
            } else if ra <= 5e4 {
                0.028154 * ra.powf(0.4134)
            } else {
                0.0673838 * ra.powf(1. / 3.)
            };
            n1.max(0.242 * (ra / slender).powf(0.272))
        };
        let nu60 = {
            let damp = 0.5 * (1. + (ra / 3160.).powf(20.6)).powf(-0.1);
            let n1 = (1. + (0.0936 * ra.powf(0.314) / (1. + damp)).powi(7)).powf(1. / 7.);
            n1.max((0.104 + 0.175 / slender) * ra.powf(0.283))
        };
        let (name, nu, valid) = if at60 {
            ("tilted_60", nu60, true)
        } else if at90 {
            ("vertical", nu90, true)
        } else if deg < 60. {
            let rc = ra * g.cos();
            let hot = (1. - 1708. / rc).max(0.);
            let wave = 1. - 1708. * (1.8 * g).sin().powf(1.6) / rc;
            ("tilted_up", 1. + 1.44 * hot * wave + ((rc / 5830.).cbrt() - 1.).max(0.), ra < 1e5 && slender > 20.)
        } else if deg < 90. {
            ("tilted_60_90", nu60 + (nu90 - nu60) * (deg - 60.) / 30., ra > 1e2 && ra < 2e7 && slender > 5. && slender < 100.)
        } else {
            ("tilted_down", 1. + (nu90 - 1.) * g.sin(), true)
        };
        let e = nu.max(1.) * cond + rad;
        if valid && (ra - 1e4).abs() > 1. && (ra - 5e4).abs() > 1. {
            ensure!((u - e).abs() < 1e-4 * e, "a cavity ({}, {} degrees from one heated from below) transfers {} W/m2K; ISO 15099 says {}", name, deg, u, e);
            c.event(name, 1);
            if nu > 1.02 {
                c.event("convection", 1);
            }
        }
    }
    c.seen(&format!("{} {:.3} {:.2} {:.1} {:.1}", kind, thick, angle, tf, tb));
    Ok(())
}
fn films(c: &mut Case) -> R {
    let (ta, ts) = (c.rng.range(-20., 50.), c.rng.range(-20., 70.));
    let cos = match c.rng.below(4) {
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        _ => c.rng.range(-1., 1.),
    };
    let speed = if c.rng.chance(0.2) { 0. } else { c.rng.range(0., 20.) };
    let rough = c.rng.below(6);
    let p = ConvectionParams { air_temperature: ta, air_speed: speed, rad_temperature: ta, surface_temperature: ts, roughness_index: rough, cos_surface_tilt: cos };
    c.desc(format!("{:?}", p));
    let h = p.get_tarp_natural_convection_coefficient();
    let d = (ta - ts).abs();
    let v = 1.31 * d.powf(1. / 3.);
    // negative = facing up (the sign the model passes for a face that looks up)
    let e = if d < 1e-3 || cos.abs() < 1e-3 {
        v
    } else if (ta - ts) * cos > 0. {
        9.482 * d.powf(1. / 3.) / (7.238 - cos.abs())
    } else {
        1.81 * d.powf(1. / 3.) / (1.382 + cos.abs())
    };
    ensure!((h - e.max(0.1)).abs() < 1e-9 * (1. + e), "natural convection {} instead of {}", h, e);
    let (area, per) = (c.rng.range(0.1, 100.), c.rng.range(1., 60.));
    let ww = p.get_tarp_convection_coefficient(area, per, true);
    let lw = p.get_tarp_convection_coefficient(area, per, false);
    let rf = [2.17, 1.67, 1.52, 1.13, 1.11, 1.][rough];
    let forced = 2.537 * rf * (per * speed / area).sqrt();
    ensure!((ww - h - forced).abs() < 1e-9 * (1. + ww), "windward {} instead of {} + {}", ww, h, forced);
    ensure!((lw - h - forced / 2.).abs() < 1e-9 * (1. + lw), "leeward {} instead of {} + {}/2", lw, h, forced);
    // physically: unstable (enhanced) >= vertical-ish >= stable
    c.event("films", 1);
    c.seen(&format!("{:.1} {:.1} {:.2}", ta, ts, cos));
    Ok(())
}
/// the coefficients a wall gets: which way it faces, how the wind blows, what is on each side
fn border(c: &mut Case) -> R {
    let tz = c.rng.range(10., 30.);
    let to = c.rng.range(-5., 40.);
    let side = |r: &mut Rng| match r.below(4) {
        0 | 1 => B::Out,
        2 => B::Space(0),
        _ => B::Amb(r.range(-5., 35.)),
    };
    let wall = Wall {
        layers: rnd_opaque(&mut c.rng, false),
        pts: rnd_rect(&mut c.rng),
        front: side(&mut c.rng),
        back: side(&mut c.rng),
        fh: None,
        bh: None,
        fen: if c.rng.chance(0.3) { Some(FenestrationType::Door) } else { None },
    };
    let terr = [None, Some(model::TerrainClass::Country), Some(model::TerrainClass::City), Some(model::TerrainClass::Ocean), Some(model::TerrainClass::Suburbs), Some(model::TerrainClass::Urban)];
    let terrain = c.rng.pick(&terr).clone();
    let h = House { vols: vec![1e9], inf: vec![None], walls: vec![wall.clone()], hvacs: vec![], lums: vec![], terrain };
    let mut run = start(&h, 6)?;
    run.set_zone(0, tz)?;
    run.irradiate(&h, 0, Side { ir: ir_of(to), sun: 0. }, Side { ir: ir_of(to), sun: 0. })?;
    let (a, b) = run.node_range(&h, 0)?;
    for k in a..=b {
        run.state[k] = c.rng.range(0., 40.);
    }
    let speed = if c.rng.chance(0.2) { 0. } else { c.rng.range(0.5, 15.) };
    let dir = c.rng.range(0., 2. * std::f64::consts::PI);
    c.desc(format!("zone {} out {} wind {} m/s from {} rad terrain {:?} {:?}", tz, to, speed, dir, terrain, wall));
    run.tm.dt = 1e-3;
    run.tm.dt_subdivisions = 1;
    let mut al = run.tm.allocate_memory(&run.state)?;
    run.tm.march(day(), &constant_weather(to, speed, dir), &run.m, &mut run.state, &mut al)?;
    let ts = run.nodes(&h, 0)?;
    let f = run.films(&h, 0)?;
    let p = &wall.pts;
    let (u, v) = (p[1] - p[0], p[3] - p[0]);
    let n = u.cross(v).get_normalized();
    let (area, per) = (u.length() * v.length(), 2. * (u.length() + v.length()));
    let z = (p[0].z + p[2].z) / 2.;
    let (alpha, delta) = match terrain {
        Some(model::TerrainClass::Country) => (0.14, 270.),
        Some(model::TerrainClass::City) => (0.33, 460.),
        Some(model::TerrainClass::Ocean) => (0.10, 210.),
        Some(model::TerrainClass::Suburbs) => (0.22, 370.),
        _ => (0.22, 370.),
    };
    let local = if z < 1e-5 { 0. } else { speed * (270.0f64 / 10.).powf(0.14) * (z / delta as f64).powf(alpha) };
    let default_terrain = terrain.is_none();
    for (which, b, sgn, t, got) in [("front", &wall.front, 1.0, ts[0], f[0]), ("back", &wall.back, -1.0, ts[ts.len() - 1], f[1])] {
        let up = sgn * n.z; // > 0 when that face looks up
        let ta = match b {
            B::Out => to,
            B::Space(_) => tz,
            B::Amb(x) => *x,
            _ => incon!("generator"),
        };
        let d = (ta - t).abs();
        if d < 0.01 || (up.abs() < 2e-3 && up.abs() > 1e-9) {
            continue;
        }
        let hot = t > ta;
        let nat = if up.abs() < 1e-3 {
            1.31 * d.powf(1. / 3.)
        } else if hot == (up > 0.) {
            // warm and facing up, or cold and facing down: the air moves
            9.482 * d.powf(1. / 3.) / (7.238 - up.abs())
        } else {
            1.81 * d.powf(1. / 3.) / (1.382 + up.abs())
        };
        let mut e = nat.max(0.1);
        if *b == B::Out {
            if default_terrain && speed > 0. {
                continue;
            }
            // does the wind come from where the face looks?
            let dot = sgn * (n.x * dir.sin() + n.y * dir.cos());
            if up.abs() < 0.98 && dot.abs() < 1e-3 || (up.abs() - 0.98).abs() < 1e-6 {
                continue;
            }
            let windward = up.abs() >= 0.98 || dot > 0.;
            // roughness of a rough surface (index 1)
            e += 2.537 * 1.67 * if windward { 1. } else { 0.5 } * (per * local / area).sqrt();
            c.event(if windward { "windward" } else { "leeward" }, 1);
        } else {
            c.event("indoors", 1);
        }
        ensure!((got - e).abs() < 1e-3 * e, "{} side ({:?}, looks {}), {} C against {} C, local wind {}: h = {} instead of {}", which, b, up, t, ta, local, got, e);
    }
    c.seen(&format!("{:?} {:?} {:.2}", wall.front, wall.back, n.z));
    Ok(())
}

#[allow(dead_code)]
fn unused(_: Infiltration) {}

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "H01",
        rule: "random glazing stacks (1-6 layers, asymmetric, clear, opaque, mirror-like): transmittance, reflectances and the absorptance of each layer compared with following the light back and forth; random glazings, trombe and opaque walls: where the thermal model puts the absorbed sun; random, incomplete or meaningless constructions. Non-trivial: distinct (stack, transmittance).",
        assumptions: &["no layer reflects more than 99.9% of what it does not transmit"],
        workloads: &[
            wl("glazing", 4000, 60000, glazing).need(&[("stacks", 3000)]),
            wl("absorbed", 1500, 20000, absorbed).need(&[("glazed", 700), ("opaque", 200)]),
            wl("hostile_construction", 2000, 30000, hostile_construction).need(&[("refused", 200), ("marched", 200)]),
        ],
    },
    &Prop {
        id: "H02",
        rule: "random constructions (massive, light, cavities), time steps and element sizes: heat capacity, resistance and cavities of each layer are all there, each node is in exactly one chunk, and explicit integration is stable. Non-trivial: distinct (elements per layer, sub-steps).",
        assumptions: &[],
        workloads: &[wl("discretize", 5000, 80000, discretize).need(&[("massive_layers", 2000), ("light_layers", 1000), ("cavities", 500)])],
    },
    &Prop {
        id: "H03",
        rule: "random buildings (1-3 zones, walls and windows of any orientation, boundaries of every kind): at equilibrium nothing changes; without sources temperatures stay in range; a wall described from its other side behaves the same; the nodes of massive walls warm up by the heat flowing into them; steady walls are in balance. Non-trivial: distinct (buildings, temperatures).",
        assumptions: &["comparison of warming rates only where every node has mass", "0.5 C of slack on the range of temperatures"],
        workloads: &[
            wl("equilibrium", 400, 5000, equilibrium).need(&[("walls", 400)]),
            wl("bounds", 250, 4000, bounds).need(&[("steps", 3000)]),
            wl("mirror", 250, 4000, mirror).need(&[("compared", 1000)]),
            wl("rates", 2000, 30000, rates).need(&[("walls", 500), ("sunny", 200)]),
            wl("steady", 100, 1200, steady).need(&[("steady", 40), ("u_values", 5)]),
        ],
    },
    &Prop {
        id: "H04",
        rule: "random multi-zone buildings with heaters, coolers, lights, infiltration and ventilation: after one sub-step every zone's temperature follows from its heat balance, reported heat flows match, and the order of the lists does not matter. Non-trivial: distinct (zones, walls, outdoor temperature).",
        assumptions: &[],
        workloads: &[
            wl("zones", 1000, 15000, zones).need(&[("zones", 1500), ("isolated", 100), ("flows", 2000)]),
            wl("permuted", 200, 3000, permuted).need(&[("walls", 400)]),
        ],
    },
    &Prop {
        id: "H05",
        rule: "random cavities (gas, thickness, angle, temperatures) against still gas plus radiation, ISO 15099 where closed-form, and themselves seen from the other side; TARP films; and the films the model gives to walls facing anywhere in wind from anywhere. Non-trivial: distinct (gas, angle, temperatures).",
        assumptions: &["cavities within 0.01 rad of 60, 90 and 120 degrees are not compared with their mirror image"],
        workloads: &[
            wl("cavities", 10000, 200000, cavities).need(&[("mirrored", 3000), ("heated_from_above", 300), ("vertical", 500), ("tilted_60", 500), ("tilted_up", 1000), ("tilted_60_90", 500), ("tilted_down", 1000), ("convection", 1000)]),
            wl("films", 5000, 50000, films).need(&[("films", 5000)]),
            wl("border", 1500, 20000, border).need(&[("windward", 200), ("leeward", 150), ("indoors", 300)]),
        ],
    },
];
