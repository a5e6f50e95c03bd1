//! Random buildings, shared by the heat, air, light and simulation monitors.
use crate::core::Rng;
use geometry::{Loop3D, Point3D, Polygon3D};
use model::substance::gas::GasSpecification;
use model::substance::{Gas, Normal};
use model::{
    Boundary, Construction, Fenestration, FenestrationType, Infiltration, Luminaire, Material, Model,
    SimulationStateHeader, Space, Surface,
};

#[derive(Clone, Debug)]
pub enum Lay {
    Solid { k: f64, rho: f64, cp: f64, thick: f64, tau: f64, af: f64, ab: f64, ef: f64, eb: f64 },
    Gas { kind: usize, thick: f64 },
}
impl Lay {
    pub fn flipped(&self) -> Self {
        match self {
            Lay::Solid { k, rho, cp, thick, tau, af, ab, ef, eb } => Lay::Solid {
                k: *k,
                rho: *rho,
                cp: *cp,
                thick: *thick,
                tau: *tau,
                af: *ab,
                ab: *af,
                ef: *eb,
                eb: *ef,
            },
            g => g.clone(),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum B {
    Out,
    Space(usize),
    Amb(f64),
    Adiabatic,
    Ground,
}
#[derive(Clone, Debug)]
pub struct Wall {
    pub layers: Vec<Lay>,
    pub pts: Vec<Point3D>,
    pub front: B,
    pub back: B,
    pub fh: Option<f64>,
    pub bh: Option<f64>,
    /// None: surface; Some: free-standing fenestration
    pub fen: Option<FenestrationType>,
}
impl Wall {
    /// the very same physical wall, described from the other side
    pub fn flipped(&self) -> Self {
        let mut pts = self.pts.clone();
        pts.reverse();
        Wall {
            layers: self.layers.iter().rev().map(|l| l.flipped()).collect(),
            pts,
            front: self.back.clone(),
            back: self.front.clone(),
            fh: self.bh,
            bh: self.fh,
            fen: self.fen,
        }
    }
}
#[derive(Clone, Debug)]
pub struct House {
    pub vols: Vec<f64>,
    pub inf: Vec<Option<Infiltration>>,
    pub walls: Vec<Wall>,
    /// (space, ideal?)
    pub hvacs: Vec<(usize, bool)>,
    pub lums: Vec<usize>,
    pub terrain: Option<model::TerrainClass>,
}
pub fn space_name(i: usize) -> String {
    format!("space {}", i)
}
fn bound(b: &B) -> Boundary {
    match b {
        B::Out => Boundary::Outdoor,
        B::Space(i) => Boundary::Space { space: space_name(*i) },
        B::Amb(t) => Boundary::AmbientTemperature { temperature: *t },
        B::Adiabatic => Boundary::Adiabatic,
        B::Ground => Boundary::Ground,
    }
}
pub fn polygon(pts: &[Point3D]) -> Result<Polygon3D, String> {
    let mut l = Loop3D::new();
    for p in pts {
        l.push(*p)?;
    }
    l.close()?;
    Polygon3D::new(l)
}
/// adds the construction of `layers` under `name`
pub fn add_layers(m: &mut Model, name: &str, layers: &[Lay]) {
    let mut con = Construction::new(name);
    for (i, l) in layers.iter().enumerate() {
        let sname = format!("{} substance {}", name, i);
        let mname = format!("{} material {}", name, i);
        let thick = match l {
            Lay::Solid { k, rho, cp, thick, tau, af, ab, ef, eb } => {
                let mut s = Normal::new(sname.clone());
                s.set_thermal_conductivity(*k)
                    .set_density(*rho)
                    .set_specific_heat_capacity(*cp)
                    .set_front_thermal_absorbtance(*ef)
                    .set_back_thermal_absorbtance(*eb)
                    .set_front_solar_absorbtance(*af)
                    .set_back_solar_absorbtance(*ab)
                    .set_solar_transmittance(*tau);
                m.add_substance(s.wrap());
                *thick
            }
            Lay::Gas { kind, thick } => {
                let mut g = Gas::new(sname.clone());
                g.set_gas(match kind {
                    0 => GasSpecification::Air,
                    1 => GasSpecification::Argon,
                    2 => GasSpecification::Krypton,
                    _ => GasSpecification::Xenon,
                });
                m.add_substance(g.wrap());
                *thick
            }
        };
        m.add_material(Material::new(mname.clone(), sname, thick));
        con.materials.push(mname);
    }
    m.add_construction(con);
}
pub fn build(h: &House) -> Result<(Model, SimulationStateHeader), String> {
    let mut m = Model::default();
    if let Some(t) = &h.terrain {
        let mut s = model::SiteDetails::new();
        s.set_terrain(*t);
        m.site_details = Some(s);
    }
    for (i, v) in h.vols.iter().enumerate() {
        let mut s = Space::new(space_name(i));
        s.set_volume(*v);
        if let Some(Some(f)) = h.inf.get(i) {
            s.set_infiltration(f.clone());
        }
        m.add_space(s);
    }
    for (i, w) in h.walls.iter().enumerate() {
        let name = format!("construction {}", i);
        add_layers(&mut m, &name, &w.layers);
        let p = polygon(&w.pts)?;
        if let Some(cat) = w.fen {
            let mut f = Fenestration::new(format!("fen {}", i), p, name, cat, bound(&w.front), bound(&w.back));
            if let Some(v) = w.fh {
                f.set_precalculated_front_convection_coef(v);
            }
            if let Some(v) = w.bh {
                f.set_precalculated_back_convection_coef(v);
            }
            m.add_fenestration(f)?;
        } else {
            let mut s = Surface::new(format!("wall {}", i), p, name, bound(&w.front), bound(&w.back));
            if let Some(v) = w.fh {
                s.set_precalculated_front_convection_coef(v);
            }
            if let Some(v) = w.bh {
                s.set_precalculated_back_convection_coef(v);
            }
            m.add_surface(s)?;
        }
    }
    for (i, (sp, ideal)) in h.hvacs.iter().enumerate() {
        if *ideal {
            let mut x = model::hvac::IdealHeaterCooler::new(format!("hvac {}", i));
            x.set_target_space(space_name(*sp));
            m.add_hvac(x.wrap())?;
        } else {
            let mut x = model::hvac::ElectricHeater::new(format!("hvac {}", i));
            x.set_target_space(space_name(*sp));
            m.add_hvac(x.wrap())?;
        }
    }
    for (i, sp) in h.lums.iter().enumerate() {
        let mut l = Luminaire::new(format!("lum {}", i));
        l.set_max_power(1000.);
        l.set_target_space(space_name(*sp));
        m.add_luminaire(l)?;
    }
    let st = m.take_state().ok_or("no state")?;
    Ok((m, st))
}

pub fn rnd_solid(r: &mut Rng) -> Lay {
    let (k, rho, cp, thick) = match r.below(5) {
        0 => (r.range(0.5, 2.0), r.range(1200., 2400.), r.range(700., 1100.), r.range(0.05, 0.35)), // concrete/brick
        1 => (r.range(0.02, 0.05), r.range(10., 60.), r.range(800., 2400.), r.range(0.01, 0.2)), // insulation
        2 => (r.range(0.1, 0.3), r.range(400., 900.), r.range(1000., 1700.), r.range(0.005, 0.1)), // timber/board
        3 => (r.range(10., 200.), r.range(2000., 8000.), r.range(400., 900.), r.range(0.001, 0.02)), // metal
        _ => (r.range(0.7, 1.1), 2500., 840., r.range(0.003, 0.012)), // glass-like, but opaque
    };
    let (ef, eb) = (r.range(0.02, 0.95), r.range(0.02, 0.95));
    Lay::Solid { k, rho, cp, thick, tau: 0.0, af: r.range(0.05, 0.95), ab: r.range(0.05, 0.95), ef, eb }
}
pub fn rnd_glass(r: &mut Rng) -> Lay {
    let tau = r.range(0.05, 0.95);
    let lim = 1. - tau;
    Lay::Solid {
        k: r.range(0.7, 1.1),
        rho: 2500.,
        cp: 840.,
        thick: r.range(0.003, 0.012),
        tau,
        af: lim * r.range(0.02, 0.98),
        ab: lim * r.range(0.02, 0.98),
        ef: r.range(0.02, 0.9),
        eb: r.range(0.02, 0.9),
    }
}
pub fn rnd_gas(r: &mut Rng) -> Lay {
    Lay::Gas { kind: r.below(4), thick: r.range(0.006, 0.05) }
}
/// an opaque wall of 1-4 layers, maybe with a cavity
pub fn rnd_opaque(r: &mut Rng, cavities: bool) -> Vec<Lay> {
    let n = 1 + r.below(4);
    let mut v: Vec<Lay> = vec![];
    for i in 0..n {
        if i > 0 && cavities && r.chance(0.3) {
            v.push(rnd_gas(r));
        }
        v.push(rnd_solid(r));
    }
    v
}
/// single, double or triple glazing
pub fn rnd_glazed(r: &mut Rng) -> Vec<Lay> {
    let n = 1 + r.below(3);
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            v.push(rnd_gas(r));
        }
        v.push(rnd_glass(r));
    }
    v
}
/// a rectangle: vertical, horizontal or tilted
pub fn rnd_rect(r: &mut Rng) -> Vec<Point3D> {
    let (w, h) = (r.range(0.5, 8.), r.range(0.5, 4.));
    let az = if r.chance(0.5) { (r.below(8) as f64) * std::f64::consts::FRAC_PI_4 } else { r.range(0., 6.28) };
    let tilt = match r.below(4) {
        0 => 0.0,                             // facing up
        1 => std::f64::consts::FRAC_PI_2,     // vertical
        2 => std::f64::consts::PI,            // facing down
        _ => r.range(0.1, 3.0),
    };
    // u horizontal, v along the slope; normal = u x v
    let (ux, uy) = (az.cos(), az.sin());
    let (vx, vy, vz) = (-az.sin() * tilt.cos(), az.cos() * tilt.cos(), tilt.sin());
    let o = Point3D::new(r.range(-20., 20.), r.range(-20., 20.), r.range(0., 30.));
    let p = |a: f64, b: f64| Point3D::new(o.x + a * ux + b * vx, o.y + a * uy + b * vy, o.z + b * vz);
    vec![p(0., 0.), p(w, 0.), p(w, h), p(0., h)]
}
pub fn solids(layers: &[Lay]) -> Vec<&Lay> {
    layers.iter().filter(|l| matches!(l, Lay::Solid { .. })).collect()
}
/// absorbed fraction per solid layer, transmitted and reflected fraction, for light hitting the first
/// layer: follows the fluxes back and forth until they vanish.
pub fn bounce(stack: &[(f64, f64, f64, f64, f64)]) -> (Vec<f64>, f64, f64) {
    // (tau, rho_front, rho_back, alpha_front, alpha_back)
    let n = stack.len();
    let mut down = vec![0.0; n + 1]; // flux towards the back, before layer i
    let mut up = vec![0.0; n + 1]; // flux towards the front, behind layer i-1 (up[0] leaves)
    down[0] = 1.0;
    let mut abs = vec![0.0; n];
    let (mut t, mut rf) = (0.0, 0.0);
    for _ in 0..200_000 {
        let mut nd = vec![0.0; n + 1];
        let mut nu = vec![0.0; n + 1];
        for i in 0..n {
            let (tau, rhof, rhob, af, ab) = stack[i];
            // arriving at layer i from the front
            let d = down[i];
            abs[i] += d * af;
            nd[i + 1] += d * tau;
            nu[i] += d * rhof;
            // arriving at layer i from the back
            let u = up[i + 1];
            abs[i] += u * ab;
            nu[i] += u * tau;
            nd[i + 1] += u * rhob;
        }
        t += nd[n];
        rf += nu[0];
        nd[n] = 0.0;
        nu[0] = 0.0;
        down = nd;
        up = nu;
        let rest: f64 = down.iter().sum::<f64>() + up.iter().sum::<f64>();
        if rest < 1e-15 {
            break;
        }
    }
    (abs, t, rf)
}
