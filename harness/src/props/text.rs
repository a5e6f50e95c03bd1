//! Model files: reading, writing, hostile text, dangling references, carved windows, summaries.
use super::heat::{rnd_house, META};
use super::house::{build, polygon, space_name};
use crate::core::*;
use crate::ensure;
use geometry::Point3D;
use communication::SimulationModel;
use model::*;
use serde_json::{json, Map, Value};
use simple::MultiphysicsModel;
use std::collections::BTreeMap;

/// What a user would write: (kind, fields)
pub type Doc = Vec<(&'static str, Value)>;

fn name(r: &mut Rng, what: &str, i: usize) -> String {
    let odd = ["", " with 'quotes'", " \"double\"", " áéí ñ 室", " a/b", " // not a comment", " /* neither */", " {", " }", "} {", " a\\b", " (x)", " [1]", ": ,", "*/", " tab\t"];
    format!("{} {}{}", what, i, if r.chance(0.4) { *r.pick(&odd) } else { "" })
}
fn num(r: &mut Rng, lo: f64, hi: f64) -> Value {
    match r.below(4) {
        0 => json!(r.range(lo, hi).ceil() as i64),
        1 => json!((r.range(lo, hi) * 100.).round() / 100.),
        2 => json!(r.range(lo, hi).ceil()),
        _ => json!(r.range(lo, hi)),
    }
}
fn maybe(r: &mut Rng, m: &mut Map<String, Value>, k: &str, v: Value) {
    if r.chance(0.6) {
        m.insert(k.into(), v);
    }
}
fn flat(p: &[Point3D]) -> Value {
    let mut v = vec![];
    for q in p {
        v.push(json!(q.x));
        v.push(json!(q.y));
        v.push(json!(q.z));
    }
    Value::Array(v)
}
/// A rectangle in space, and rectangles in it that do not touch
fn plate(r: &mut Rng, wins: usize) -> (Vec<Point3D>, Vec<Vec<Point3D>>) {
    let (a, h) = (r.range(0., 6.28), r.range(0., 10.));
    let tilt = *r.pick(&[0., 1.5707963267948966, 0.7, -0.4, 3.141592653589793]);
    let (u, v) = ((a.cos(), a.sin(), 0.), (-a.sin() * f64::cos(tilt), a.cos() * f64::cos(tilt), f64::sin(tilt)));
    let (w, l) = (r.range(2., 8.), r.range(2., 4.));
    let o = (r.range(-10., 10.), r.range(-10., 10.), h);
    let at = |s: f64, t: f64| Point3D::new(o.0 + u.0 * s + v.0 * t, o.1 + u.1 * s + v.1 * t, o.2 + u.2 * s + v.2 * t);
    let rect = |s0: f64, s1: f64, t0: f64, t1: f64| vec![at(s0, t0), at(s1, t0), at(s1, t1), at(s0, t1)];
    let mut holes = vec![];
    for i in 0..wins {
        let cell = w / wins as f64;
        let (x0, x1) = (cell * (i as f64 + r.range(0.1, 0.3)), cell * (i as f64 + r.range(0.5, 0.9)));
        let mut q = rect(x0, x1, l * r.range(0.1, 0.3), l * r.range(0.5, 0.9));
        if r.chance(0.3) {
            q.reverse();
        }
        holes.push(q);
    }
    let mut outer = rect(0., w, 0., l);
    if r.chance(0.3) {
        outer.reverse();
    }
    (outer, holes)
}
fn obj(v: Value) -> Map<String, Value> {
    v.as_object().unwrap().clone()
}
fn rnd_boundary(r: &mut Rng, spaces: &[String]) -> Value {
    match r.below(5) {
        0 => json!({"type":"Outdoor"}),
        1 => json!({"type":"Ground"}),
        2 => json!({"type":"AmbientTemperature","temperature":num(r, -10., 40.)}),
        3 if r.chance(0.3) => json!({"type":"Adiabatic"}),
        _ if !spaces.is_empty() => json!({"type":"Space","space":r.pick(spaces).clone()}),
        _ => json!({"type":"Outdoor"}),
    }
}
/// A model in which every reference holds
pub fn rnd_doc(r: &mut Rng) -> Doc {
    let mut d: Doc = vec![];
    let names = |r: &mut Rng, what: &str, n: usize| (0..n).map(|i| name(r, what, i)).collect::<Vec<_>>();
    let count = |r: &mut Rng, hi: usize| r.below(hi + 1);
    let n = 1 + count(r, 2);
    let spaces = names(r, "space", n);
    let n = count(r, 2);
    let buildings = names(r, "building", n);
    let n = 1 + count(r, 3);
    let subs = names(r, "substance", n);
    let n = 1 + count(r, 3);
    let mats = names(r, "material", n);
    let n = 1 + count(r, 3);
    let cons = names(r, "construction", n);
    for s in &spaces {
        let mut m = obj(json!({ "name": s }));
        let v = num(r, 1., 300.);
        maybe(r, &mut m, "volume", v);
        let inf = match r.below(5) {
            0 => json!({"type":"Constant","flow":num(r, 0., 1.)}),
            1 => json!({"type":"Blast","flow":num(r, 0., 1.)}),
            2 => json!({"type":"Doe2","flow":num(r, 0., 1.)}),
            3 => json!({"type":"DesignFlowRate","a":num(r, 0., 1.),"b":num(r, 0., 1.),"c":num(r, 0., 1.),"d":num(r, 0., 1.),"phi":num(r, 0., 1.)}),
            _ => json!({"type":"EffectiveAirLeakageArea","area":num(r, 0., 1.)}),
        };
        maybe(r, &mut m, "infiltration", inf);
        if !buildings.is_empty() {
            let b = json!(r.pick(&buildings).clone());
            maybe(r, &mut m, "building", b);
        }
        let v = json!(r.below(4));
        maybe(r, &mut m, "storey", v);
        let all = ["Bathroom", "Bedroom", "DiningRoom", "Kitchen", "LivingRoom", "Office", "Storage", "Garage", "Hallway", "Laundry", "Other"];
        let k = r.below(4);
        let v = Value::Array((0..k).map(|_| json!(*r.pick(&all))).collect());
        maybe(r, &mut m, "purposes", v);
        d.push(("Space", m.into()));
    }
    for b in &buildings {
        let mut m = obj(json!({ "name": b }));
        let v = json!(1 + r.below(3));
        maybe(r, &mut m, "n_storeys", v);
        let v = json!(*r.pick(&["NoObstructions", "IsolatedRural", "Urban", "LargeLotUrban", "SmallLotUrban"]));
        maybe(r, &mut m, "shelter_class", v);
        for k in ["stack_coefficient", "wind_coefficient"] {
            let v = json!(r.range(1e-5, 1e-3));
            maybe(r, &mut m, k, v);
        }
        d.push(("Building", m.into()));
    }
    for s in &subs {
        if r.chance(0.3) {
            let mut m = obj(json!({"type":"Gas","name":s}));
            let v = json!(*r.pick(&["Air", "Argon", "Krypton", "Xenon"]));
            maybe(r, &mut m, "gas", v);
            d.push(("Substance", m.into()));
        } else {
            let mut m = obj(json!({"type":"Normal","name":s}));
            for k in [
                "thermal_conductivity", "specific_heat_capacity", "density", "front_solar_absorbtance", "back_solar_absorbtance", "solar_transmittance",
                "front_visible_reflectance", "back_visible_reflectance", "visible_transmissivity", "front_thermal_absorbtance", "back_thermal_absorbtance",
            ] {
                let v = num(r, 0., if k.contains("density") || k.contains("heat") { 2000. } else { 1. });
                maybe(r, &mut m, k, v);
            }
            d.push(("Substance", m.into()));
        }
    }
    for s in &mats {
        d.push(("Material", json!({"name":s,"substance":r.pick(&subs).clone(),"thickness":r.range(0.001, 0.3)})));
    }
    for s in &cons {
        let k = 1 + r.below(4);
        d.push(("Construction", json!({"name":s,"materials":(0..k).map(|_| r.pick(&mats).clone()).collect::<Vec<_>>()})));
    }
    let n_surf = count(r, 4);
    let mut n_fen = 0;
    for i in 0..n_surf {
        let wins = if r.chance(0.5) { 0 } else { 1 + count(r, 2) };
        let (outer, holes) = plate(r, wins);
        let nm = name(r, "surface", i);
        let mut m = obj(json!({"name":nm,"vertices":flat(&outer),"construction":r.pick(&cons).clone()}));
        for k in ["front_boundary", "back_boundary"] {
            let v = rnd_boundary(r, &spaces);
            maybe(r, &mut m, k, v);
        }
        let v = json!(*r.pick(&["ExteriorWall", "InteriorWall", "GroundFloor", "ExteriorFloor", "InteriorFloor", "Ceiling", "Roof", "Other"]));
        maybe(r, &mut m, "category", v);
        for k in ["precalculated_front_convection_coef", "precalculated_back_convection_coef"] {
            let v = num(r, 1., 20.);
            maybe(r, &mut m, k, v);
        }
        d.push(("Surface", m.into()));
        for q in holes.iter() {
            let mut m = fen(r, n_fen, q, &cons);
            m.insert("parent_surface".into(), json!(nm));
            d.push(("Fenestration", m.into()));
            n_fen += 1;
        }
    }
    for _ in 0..count(r, 1) {
        let (outer, _) = plate(r, 0);
        let mut m = fen(r, n_fen, &outer, &cons);
        for k in ["front_boundary", "back_boundary"] {
            let v = rnd_boundary(r, &spaces);
            maybe(r, &mut m, k, v);
        }
        d.push(("Fenestration", m.into()));
        n_fen += 1;
    }
    for i in 0..count(r, 3) {
        let nm = name(r, "hvac", i);
        let ideal = r.chance(0.5);
        let mut m = obj(json!({"type": if ideal { "IdealHeaterCooler" } else { "ElectricHeater" }, "name": nm, "target_space": r.pick(&spaces).clone()}));
        for k in ["max_heating_power", "heating_setpoint", "max_cooling_power", "cooling_setpoint"] {
            if ideal || k.contains("heating") {
                let v = num(r, 10., 3000.);
                maybe(r, &mut m, k, v);
            }
        }
        d.push(("HVAC", m.into()));
    }
    for i in 0..count(r, 2) {
        let nm = name(r, "luminaire", i);
        let mut m = obj(json!({"name": nm, "target_space": r.pick(&spaces).clone()}));
        let v = num(r, 10., 3000.);
        maybe(r, &mut m, "max_power", v);
        d.push(("Luminaire", m.into()));
    }
    for i in 0..count(r, 3) {
        let nm = name(r, "object", i);
        let mut m = obj(json!({"name": nm, "dimensions": triple(r, true)}));
        let v = triple(r, false);
        maybe(r, &mut m, "location", v);
        for k in ["up", "front"] {
            let v = triple(r, false);
            maybe(r, &mut m, k, v);
        }
        let v = json!(r.pick(&spaces).clone());
        maybe(r, &mut m, "space", v);
        let plain = ["Other", "Bathtub", "Bed", "Dishwasher", "Fireplace", "Oven", "Refrigerator", "Sink", "Stairs", "Stove", "Television", "Toilet", "WasherDryer"];
        let spec = match r.below(5) {
            0 => {
                let mut s = obj(json!({"type":"Chair"}));
                let v = json!(*r.pick(&["Other", "Dining", "Office", "Stool"]));
                maybe(r, &mut s, "subtype", v);
                for k in ["arms", "back"] {
                    let v = json!(*r.pick(&["Existing", "Missing"]));
                    maybe(r, &mut s, k, v);
                }
                let v = json!(*r.pick(&["Four", "Three", "Star", "Other"]));
                maybe(r, &mut s, "legs", v);
                s
            }
            1 => {
                let mut s = obj(json!({"type":"Sofa"}));
                let v = json!(*r.pick(&["Other", "Rectangular", "SingleSeat", "LShaped", "LShapedExtension"]));
                maybe(r, &mut s, "subtype", v);
                s
            }
            2 => {
                let mut s = obj(json!({"type":"Storage"}));
                let v = json!(*r.pick(&["Cabinet", "Shelf"]));
                maybe(r, &mut s, "subtype", v);
                s
            }
            3 => {
                let mut s = obj(json!({"type":"Table"}));
                let v = json!(*r.pick(&["Other", "Dining", "Coffee"]));
                maybe(r, &mut s, "subtype", v);
                let v = json!(*r.pick(&["Other", "Rectangular", "Circular", "LShaped"]));
                maybe(r, &mut s, "shape", v);
                s
            }
            _ => obj(json!({"type": *r.pick(&plain)})),
        };
        maybe(r, &mut m, "specifications", spec.into());
        d.push(("Object", m.into()));
    }
    for _ in 0..count(r, 3) {
        let k = *r.pick(&["SpaceDryBulbTemperature", "SurfaceNodeTemperature", "Clothing", "SpaceInfiltrationVolume", "FenestrationOpenFraction", "HeatingCoolingPowerConsumption"]);
        let mut m = Map::new();
        m.insert(k.into(), json!(r.pick(&spaces).clone()));
        d.push(("Output", m.into()));
    }
    if r.chance(0.6) {
        let mut m = Map::new();
        let v = num(r, 0., 1000.);
        maybe(r, &mut m, "altitude", v);
        let v = json!(*r.pick(&["Country", "Suburbs", "City", "Ocean", "Urban"]));
        maybe(r, &mut m, "terrain", v);
        for (k, x) in [("latitude", 66.), ("longitude", 180.), ("standard_meridian", 180.)] {
            let v = num(r, -x, x);
            maybe(r, &mut m, k, v);
        }
        d.push(("SiteDetails", m.into()));
    }
    if r.chance(0.6) {
        let mut m = Map::new();
        for k in ["n_solar_irradiance_points", "solar_ambient_divitions", "solar_sky_discretization"] {
            let v = json!(1 + r.below(100));
            maybe(r, &mut m, k, v);
        }
        let v = json!("/nowhere/opt.json");
        maybe(r, &mut m, "optical_data_path", v);
        d.push(("SolarOptions", m.into()));
    }
    d
}
fn triple(r: &mut Rng, pos: bool) -> Value {
    let lo = if pos { 0.1 } else { -3. };
    json!({"x": r.range(lo, 3.), "y": r.range(lo, 3.), "z": r.range(lo, 3.)})
}
fn fen(r: &mut Rng, i: usize, q: &[Point3D], cons: &[String]) -> Map<String, Value> {
    let nm = name(r, "fenestration", i);
    let mut m = obj(json!({"name":nm,"vertices":flat(q),"construction":r.pick(cons).clone()}));
    let v = json!(*r.pick(&["Window", "Door", "Opening"]));
    maybe(r, &mut m, "category", v);
    let op = match r.below(3) {
        0 => json!({"type":"Fixed","fraction":num(r, 0., 1.)}),
        1 => json!({"type":"Continuous","max":num(r, 0., 1.),"min":Value::Null}),
        _ => json!({"type":"Binary","open":num(r, 0., 1.),"closed":num(r, 0., 1.)}),
    };
    maybe(r, &mut m, "operation", op);
    for k in ["precalculated_front_convection_coef", "precalculated_back_convection_coef"] {
        let v = num(r, 1., 20.);
        maybe(r, &mut m, k, v);
    }
    m
}

// ---------- how it can be written ----------

/// blanks and comments
fn gap(r: &mut Rng, out: &mut String) {
    for _ in 0..r.below(3) {
        match r.below(12) {
            0..=3 => out.push(' '),
            4..=5 => out.push('\n'),
            6 => out.push('\t'),
            7 => out.push_str("\r\n"),
            8 => out.push_str("// a comment\n"),
            9 => out.push_str(r.pick::<&str>(&["// } { a 'comment\n", "// \"\n", "///\n", "// /*\n"])),
            10 => out.push_str(r.pick::<&str>(&["/* a\ncomment */", "/**/", "/* * / ** */", "/* // */"])),
            _ => out.push_str(r.pick::<&str>(&["/* { */", "/* } */", "/* ' \" */"])),
        }
    }
}
fn text(r: &mut Rng, s: &str, out: &mut String) {
    let q = if r.chance(0.3) { '\'' } else { '"' };
    out.push(q);
    for ch in s.chars() {
        match ch {
            c if c == q => {
                out.push('\\');
                out.push(c)
            }
            '\\' => out.push_str("\\\\"),
            '\t' => out.push_str("\\t"),
            c if !c.is_ascii() && r.chance(0.3) && (c as u32) < 0x10000 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push(q);
}
fn json5(r: &mut Rng, v: &Value, out: &mut String) {
    match v {
        Value::String(s) => text(r, s, out),
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                gap(r, out);
                json5(r, x, out);
                if i + 1 < a.len() || r.chance(0.3) {
                    gap(r, out);
                    out.push(',');
                }
            }
            gap(r, out);
            out.push(']');
        }
        Value::Object(m) => {
            out.push('{');
            let mut keys: Vec<&String> = m.keys().collect();
            r.shuffle(&mut keys);
            for (i, k) in keys.iter().enumerate() {
                gap(r, out);
                if r.chance(0.3) {
                    text(r, k, out);
                } else {
                    out.push_str(k);
                }
                gap(r, out);
                out.push(':');
                gap(r, out);
                json5(r, &m[*k], out);
                if i + 1 < m.len() || r.chance(0.3) {
                    gap(r, out);
                    out.push(',');
                }
            }
            gap(r, out);
            out.push('}');
        }
        Value::Number(n) => {
            let x = n.as_f64().unwrap();
            match r.below(6) {
                0 if n.is_f64() => out.push_str(&format!("{:e}", x)),
                1 if x.fract() == 0. && x.abs() < 1e6 && n.is_f64() => out.push_str(&format!("{}.", x)),
                2 if x > 0. && n.is_f64() => out.push_str(&format!("+{}", n)),
                _ => out.push_str(&n.to_string()),
            }
        }
        v => out.push_str(&v.to_string()),
    }
}
/// lines (1-based) that each object takes
fn spl(r: &mut Rng, d: &Doc) -> (String, Vec<(usize, usize)>) {
    let mut out = String::new();
    let mut lines = vec![];
    for (kind, v) in d {
        gap(r, &mut out);
        gap(r, &mut out);
        let l0 = 1 + out.matches('\n').count();
        out.push_str(kind);
        gap(r, &mut out);
        json5(r, v, &mut out);
        lines.push((l0, 1 + out.matches('\n').count()));
    }
    gap(r, &mut out);
    (out, lines)
}
fn keys(kind: &str) -> &'static str {
    match kind {
        "Building" => "buildings",
        "Construction" => "constructions",
        "Fenestration" => "fenestrations",
        "HVAC" => "hvacs",
        "Luminaire" => "luminaires",
        "Material" => "materials",
        "Object" => "objects",
        "Output" => "outputs",
        "SiteDetails" => "site_details",
        "SolarOptions" => "solar_options",
        "Space" => "spaces",
        "Surface" => "surfaces",
        "Substance" => "substances",
        _ => unreachable!(),
    }
}
fn as_json(r: &mut Rng, d: &Doc) -> String {
    let mut groups: Vec<(&str, Vec<&Value>)> = vec![];
    for (k, v) in d {
        match groups.iter_mut().find(|g| g.0 == *k) {
            Some(g) => g.1.push(v),
            None => groups.push((k, vec![v])),
        }
    }
    r.shuffle(&mut groups);
    let mut parts: Vec<String> = groups
        .iter()
        .map(|(k, vs)| {
            let single = *k == "SiteDetails" || *k == "SolarOptions";
            let v = if single { vs[0].to_string() } else { format!("[{}]", vs.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")) };
            format!("\"{}\":{}", keys(k), v)
        })
        .collect();
    if r.chance(0.5) {
        parts.push("\"name\":\"The model\"".into());
    }
    format!("{{{}}}", parts.join(",\n"))
}

// ---------- what a model says ----------

pub type Facts = BTreeMap<String, Value>;
/// kind/index/field -> value
fn facts_of_doc(d: &Doc) -> Facts {
    let mut f = Facts::new();
    let mut counts: BTreeMap<&str, usize> = BTreeMap::new();
    for (kind, v) in d {
        let i = counts.entry(kind).or_insert(0);
        let base = format!("{}/{}", kind, i);
        *i += 1;
        let mut v = v.clone();
        let m = v.as_object_mut().unwrap();
        match *kind {
            "Surface" => {
                for k in ["front_boundary", "back_boundary"] {
                    m.entry(k).or_insert(json!({"type":"Outdoor"}));
                }
            }
            "Fenestration" => {
                m.entry("category").or_insert(json!("Window"));
                let parent = m.remove("parent_surface");
                for k in ["front_boundary", "back_boundary"] {
                    m.entry(k).or_insert(json!({"type":"Outdoor"}));
                }
                if let Some(p) = parent {
                    let w = d.iter().find(|(k, v)| *k == "Surface" && v["name"] == p).unwrap();
                    let facing = normal(&m["vertices"]).zip(normal(&w.1["vertices"])).map(|((a, b), (c, e))| dot(a, b, c, e)).unwrap_or(1.);
                    let get = |k: &str| w.1.get(k).cloned().unwrap_or(json!({"type":"Outdoor"}));
                    let (mut x, mut y) = (get("front_boundary"), get("back_boundary"));
                    if facing < 0. {
                        std::mem::swap(&mut x, &mut y);
                    }
                    m.insert("front_boundary".into(), x);
                    m.insert("back_boundary".into(), y);
                }
            }
            "Object" => {
                m.entry("location").or_insert(json!({"x":0.,"y":0.,"z":0.}));
                m.entry("up").or_insert(json!({"x":0.,"y":0.,"z":1.}));
                m.entry("front").or_insert(json!({"x":0.,"y":1.,"z":0.}));
                let s = m.entry("specifications").or_insert(json!({"type":"Other"}));
                let s = s.as_object_mut().unwrap();
                let t = s["type"].as_str().unwrap().to_string();
                for (k, def) in match t.as_str() {
                    "Chair" => vec![("subtype", CH), ("arms", CA), ("back", CB), ("legs", CL)],
                    "Sofa" => vec![("subtype", SF)],
                    "Storage" => vec![("subtype", ST)],
                    "Table" => vec![("subtype", TT), ("shape", TS)],
                    _ => vec![],
                } {
                    s.entry(k).or_insert(json!(def));
                }
            }
            "Space" => {
                m.entry("purposes").or_insert(json!([]));
            }
            _ => {}
        }
        put(&mut f, &base, &v);
    }
    f
}
// defaults of furniture, as documented
const CH: &str = "Other";
const CA: &str = "*";
const CB: &str = "*";
const CL: &str = "*";
const SF: &str = "Other";
const ST: &str = "*";
const TT: &str = "Other";
const TS: &str = "*";

type P2 = ((f64, f64), f64);
fn normal(v: &Value) -> Option<P2> {
    let a: Vec<f64> = v.as_array()?.iter().map(|x| x.as_f64().unwrap()).collect();
    let n = a.len() / 3;
    let p = |i: usize| (a[3 * (i % n)], a[3 * (i % n) + 1], a[3 * (i % n) + 2]);
    let (mut x, mut y, mut z) = (0., 0., 0.);
    for i in 0..n {
        let (p, q) = (p(i), p(i + 1));
        x += p.1 * q.2 - p.2 * q.1;
        y += p.2 * q.0 - p.0 * q.2;
        z += p.0 * q.1 - p.1 * q.0;
    }
    Some(((x / 2., y / 2.), z / 2.))
}
fn dot(a: (f64, f64), b: f64, c: (f64, f64), d: f64) -> f64 {
    a.0 * c.0 + a.1 * c.1 + b * d
}
fn put(f: &mut Facts, base: &str, v: &Value) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                put(f, &format!("{}/{}", base, k), x);
            }
        }
        Value::Array(a) => {
            f.insert(format!("{}/len", base), json!(a.len()));
            for (i, x) in a.iter().enumerate() {
                put(f, &format!("{}/{}", base, i), x);
            }
        }
        Value::Null => {}
        v => {
            f.insert(base.to_string(), v.clone());
        }
    }
}
fn b_json(b: &Boundary) -> Value {
    match b {
        Boundary::Outdoor => json!({"type":"Outdoor"}),
        Boundary::Ground => json!({"type":"Ground"}),
        Boundary::Space { space } => json!({"type":"Space","space":space}),
        Boundary::AmbientTemperature { temperature } => json!({"type":"AmbientTemperature","temperature":temperature}),
        Boundary::Adiabatic => json!({"type":"Adiabatic"}),
    }
}
fn opt<T: Clone + Into<Value>>(m: &mut Map<String, Value>, k: &str, v: Result<&T, String>) {
    if let Ok(v) = v {
        m.insert(k.into(), v.clone().into());
    }
}
fn debug_name<T: std::fmt::Debug>(v: &T) -> Value {
    json!(format!("{:?}", v))
}
/// Through the getters, not through the serializers
fn doc_of_model(m: &Model) -> Doc {
    let mut d: Doc = vec![];
    for s in &m.spaces {
        let mut o = obj(json!({"name": s.name().as_str(), "purposes": s.purposes.iter().map(debug_name).collect::<Vec<_>>()}));
        if let Ok(v) = s.volume() {
            o.insert("volume".into(), json!(v));
        }
        opt(&mut o, "building", s.building());
        if let Ok(v) = s.storey() {
            o.insert("storey".into(), json!(v));
        }
        if let Ok(i) = s.infiltration() {
            o.insert(
                "infiltration".into(),
                match i {
                    Infiltration::Constant { flow } => json!({"type":"Constant","flow":flow}),
                    Infiltration::Blast { flow } => json!({"type":"Blast","flow":flow}),
                    Infiltration::Doe2 { flow } => json!({"type":"Doe2","flow":flow}),
                    Infiltration::DesignFlowRate { a, b, c, d, phi } => json!({"type":"DesignFlowRate","a":a,"b":b,"c":c,"d":d,"phi":phi}),
                    Infiltration::EffectiveAirLeakageArea { area } => json!({"type":"EffectiveAirLeakageArea","area":area}),
                },
            );
        }
        d.push(("Space", o.into()));
    }
    for b in &m.buildings {
        let mut o = obj(json!({"name": b.name().as_str()}));
        if let Ok(v) = b.n_storeys() {
            o.insert("n_storeys".into(), json!(v));
        }
        if let Ok(v) = b.shelter_class() {
            o.insert("shelter_class".into(), debug_name(v));
        }
        opt(&mut o, "stack_coefficient", b.stack_coefficient());
        opt(&mut o, "wind_coefficient", b.wind_coefficient());
        d.push(("Building", o.into()));
    }
    for s in &m.substances {
        let o = match s {
            Substance::Normal(s) => {
                let mut o = obj(json!({"type":"Normal","name": s.name().as_str()}));
                opt(&mut o, "thermal_conductivity", s.thermal_conductivity());
                opt(&mut o, "specific_heat_capacity", s.specific_heat_capacity());
                opt(&mut o, "density", s.density());
                opt(&mut o, "front_solar_absorbtance", s.front_solar_absorbtance());
                opt(&mut o, "back_solar_absorbtance", s.back_solar_absorbtance());
                opt(&mut o, "solar_transmittance", s.solar_transmittance());
                opt(&mut o, "front_visible_reflectance", s.front_visible_reflectance());
                opt(&mut o, "back_visible_reflectance", s.back_visible_reflectance());
                opt(&mut o, "visible_transmissivity", s.visible_transmissivity());
                opt(&mut o, "front_thermal_absorbtance", s.front_thermal_absorbtance());
                opt(&mut o, "back_thermal_absorbtance", s.back_thermal_absorbtance());
                o
            }
            Substance::Gas(s) => {
                let mut o = obj(json!({"type":"Gas","name": s.name().as_str()}));
                if let Ok(g) = s.gas() {
                    o.insert("gas".into(), debug_name(g));
                }
                o
            }
        };
        d.push(("Substance", o.into()));
    }
    for s in &m.materials {
        d.push(("Material", json!({"name":s.name().as_str(),"substance":s.substance,"thickness":s.thickness})));
    }
    for s in &m.constructions {
        d.push(("Construction", json!({"name":s.name().as_str(),"materials":s.materials})));
    }
    for s in &m.surfaces {
        let mut o = obj(json!({"name":s.name().as_str(),"vertices":flat(s.vertices.outer().vertices()),"construction":s.construction,
            "front_boundary": b_json(&s.front_boundary), "back_boundary": b_json(&s.back_boundary)}));
        if let Ok(v) = s.category() {
            o.insert("category".into(), debug_name(v));
        }
        opt(&mut o, "precalculated_front_convection_coef", s.precalculated_front_convection_coef());
        opt(&mut o, "precalculated_back_convection_coef", s.precalculated_back_convection_coef());
        d.push(("Surface", o.into()));
    }
    for s in &m.fenestrations {
        let mut o = obj(json!({"name":s.name().as_str(),"vertices":flat(s.vertices.outer().vertices()),"construction":s.construction,
            "front_boundary": b_json(&s.front_boundary), "back_boundary": b_json(&s.back_boundary), "category": debug_name(&s.category)}));
        if let Ok(v) = s.operation() {
            o.insert(
                "operation".into(),
                match v {
                    FenestrationPosition::Fixed { fraction } => json!({"type":"Fixed","fraction":fraction}),
                    FenestrationPosition::Continuous { max, min } => json!({"type":"Continuous","max":max,"min":min}),
                    FenestrationPosition::Binary { open, closed } => json!({"type":"Binary","open":open,"closed":closed}),
                },
            );
        }
        opt(&mut o, "precalculated_front_convection_coef", s.precalculated_front_convection_coef());
        opt(&mut o, "precalculated_back_convection_coef", s.precalculated_back_convection_coef());
        d.push(("Fenestration", o.into()));
    }
    for h in &m.hvacs {
        let o = match h {
            HVAC::ElectricHeater(h) => {
                let mut o = obj(json!({"type":"ElectricHeater","name":h.name().as_str()}));
                opt(&mut o, "target_space", h.target_space());
                opt(&mut o, "max_heating_power", h.max_heating_power());
                opt(&mut o, "heating_setpoint", h.heating_setpoint());
                o
            }
            HVAC::IdealHeaterCooler(h) => {
                let mut o = obj(json!({"type":"IdealHeaterCooler","name":h.name().as_str()}));
                opt(&mut o, "target_space", h.target_space());
                opt(&mut o, "max_heating_power", h.max_heating_power());
                opt(&mut o, "heating_setpoint", h.heating_setpoint());
                opt(&mut o, "max_cooling_power", h.max_cooling_power());
                opt(&mut o, "cooling_setpoint", h.cooling_setpoint());
                o
            }
        };
        d.push(("HVAC", o.into()));
    }
    for s in &m.luminaires {
        let mut o = obj(json!({"name":s.name().as_str()}));
        opt(&mut o, "max_power", s.max_power());
        opt(&mut o, "target_space", s.target_space());
        d.push(("Luminaire", o.into()));
    }
    let xyz = |x: f64, y: f64, z: f64| json!({"x":x,"y":y,"z":z});
    for s in &m.objects {
        use model::ObjectSpecs as S;
        let spec = match &s.specifications {
            S::Chair { category, arms, back, legs } => json!({"type":"Chair","subtype":debug_name(category),"arms":debug_name(arms),"back":debug_name(back),"legs":debug_name(legs)}),
            S::Sofa { category } => json!({"type":"Sofa","subtype":debug_name(category)}),
            S::Storage { category } => json!({"type":"Storage","subtype":debug_name(category)}),
            S::Table { category, shape } => json!({"type":"Table","subtype":debug_name(category),"shape":debug_name(shape)}),
            other => json!({"type":debug_name(other)}),
        };
        let mut o = obj(json!({"name":s.name().as_str(),"dimensions":xyz(s.dimensions.x, s.dimensions.y, s.dimensions.z),
            "location":xyz(s.location.x, s.location.y, s.location.z),"up":xyz(s.up.x, s.up.y, s.up.z),"front":xyz(s.front.x, s.front.y, s.front.z),"specifications":spec}));
        opt(&mut o, "space", s.space());
        d.push(("Object", o.into()));
    }
    for s in &m.outputs {
        let t = format!("{:?}", s);
        let (k, _) = t.split_once('(').unwrap_or((&t, ""));
        use model::Output as O;
        let who = match s {
            O::SpaceDryBulbTemperature(x) | O::SurfaceNodeTemperature(x) | O::Clothing(x) | O::SpaceInfiltrationVolume(x) | O::FenestrationOpenFraction(x) | O::HeatingCoolingPowerConsumption(x) => x.clone(),
            _ => "?".into(),
        };
        let mut o = Map::new();
        o.insert(k.into(), json!(who));
        d.push(("Output", o.into()));
    }
    if let Some(s) = &m.site_details {
        let mut o = Map::new();
        opt(&mut o, "altitude", s.altitude());
        if let Ok(v) = s.terrain() {
            o.insert("terrain".into(), debug_name(v));
        }
        opt(&mut o, "latitude", s.latitude());
        opt(&mut o, "longitude", s.longitude());
        opt(&mut o, "standard_meridian", s.standard_meridian());
        d.push(("SiteDetails", o.into()));
    }
    if let Some(s) = &m.solar_options {
        let mut o = Map::new();
        for (k, v) in [
            ("n_solar_irradiance_points", s.n_solar_irradiance_points()),
            ("solar_ambient_divitions", s.solar_ambient_divitions()),
            ("solar_sky_discretization", s.solar_sky_discretization()),
        ] {
            if let Ok(v) = v {
                o.insert(k.into(), json!(v));
            }
        }
        opt(&mut o, "optical_data_path", s.optical_data_path());
        d.push(("SolarOptions", o.into()));
    }
    d
}
fn facts(m: &Model) -> Facts {
    let mut f = Facts::new();
    let mut counts: BTreeMap<&str, usize> = BTreeMap::new();
    for (kind, v) in doc_of_model(m) {
        let i = counts.entry(kind).or_insert(0);
        put(&mut f, &format!("{}/{}", kind, i), &v);
        *i += 1;
    }
    f
}
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(a), Value::Number(b)) => {
            let (a, b) = (a.as_f64().unwrap(), b.as_f64().unwrap());
            (a - b).abs() <= 1e-12 * (a.abs() + b.abs()) + 1e-14
        }
        (Value::String(s), _) | (_, Value::String(s)) if s == "*" => true,
        _ => a == b,
    }
}
fn compare(what: &str, want: &Facts, got: &Facts) -> R {
    for (k, v) in want {
        match got.get(k) {
            Some(g) => ensure!(same(v, g), "{}: {} is {} in the model but should be {}", what, k, g, v),
            None => return Err(Fail::Bad(format!("{}: {} = {} is missing in the model", what, k, v))),
        }
    }
    for (k, v) in got {
        ensure!(want.contains_key(k), "{}: {} = {} in the model was never given", what, k, v);
    }
    Ok(())
}
fn read(c: &mut Case) -> R {
    let d = rnd_doc(&mut c.rng);
    let mut shuffled = d.clone();
    // order matters only within a kind
    let mut groups: Vec<usize> = (0..d.len()).collect();
    c.rng.shuffle(&mut groups);
    let mut next: BTreeMap<&str, Vec<&Value>> = BTreeMap::new();
    for (k, v) in d.iter().rev() {
        next.entry(k).or_default().push(v);
    }
    for (slot, g) in groups.iter().enumerate() {
        let k = d[*g].0;
        let v = next.get_mut(k).unwrap().pop().unwrap();
        shuffled[slot] = (k, v.clone());
    }
    let want = facts_of_doc(&d);
    c.event("values", want.len() as u64);
    c.event("windows in walls", d.iter().filter(|(_, v)| v.get("parent_surface").is_some()).count() as u64);
    c.seen(&format!("{:?}", d));
    let (t, _) = spl(&mut c.rng, &shuffled);
    c.desc(t.clone());
    let (m, _) = Model::from_bytes(t.as_bytes()).map_err(|e| Fail::Bad(format!("A valid model is refused: {}", e)))?;
    compare("text", &want, &facts(&m))?;
    let j = as_json(&mut c.rng, &shuffled);
    c.desc(j.clone());
    let (m, _) = Model::from_json(&j).map_err(|e| Fail::Bad(format!("A valid model in JSON is refused: {}", e)))?;
    compare("json", &want, &facts(&m))?;
    // from files
    if c.rng.chance(0.1) {
        let p = scratch(".spl");
        std::fs::write(&p, &t).map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let (m, _) = Model::from_file(p.clone()).map_err(|e| Fail::Bad(format!("A valid file is refused: {}", e)))?;
        compare("file", &want, &facts(&m))?;
        std::fs::write(&p, &j).map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let (m, _) = Model::from_json_file(p.clone()).map_err(|e| Fail::Bad(format!("A valid JSON file is refused: {}", e)))?;
        compare("json file", &want, &facts(&m))?;
        let _ = std::fs::remove_file(&p);
        c.event("files", 2);
    }
    Ok(())
}
/// as re-read: walls with windows are now a single loop around them
fn strip(f: &Facts, m: &Model) -> Facts {
    let with_holes: Vec<usize> = m.surfaces.iter().enumerate().filter(|(_, s)| s.vertices.n_inner_loops() > 0).map(|(i, _)| i).collect();
    f.iter().filter(|(k, _)| !with_holes.iter().any(|i| k.starts_with(&format!("Surface/{}/vertices", i)))).map(|(k, v)| (k.clone(), v.clone())).collect()
}
fn write(c: &mut Case) -> R {
    let d = rnd_doc(&mut c.rng);
    let (t, _) = spl(&mut c.rng, &d);
    let Ok((mut m, _)) = Model::from_bytes(t.as_bytes()) else {
        return Err(Fail::Inconclusive("valid model refused (see read)".into()));
    };
    if c.rng.chance(0.5) {
        m.name = Some("A model".into());
    }
    let areas = |m: &Model| -> Vec<f64> { m.surfaces.iter().map(|s| s.area()).collect() };
    let first = facts(&m);
    let a0 = areas(&m);
    let wanted = strip(&first, &m);
    let path = scratch(".txt");
    let p = path.clone();
    for how in 0..4 {
        let what = ["text", "text file", "JSON", "JSON file"][how];
        let (text, back) = match how {
            0 => {
                let s = m.to_string();
                (s.clone(), Model::from_bytes(s.as_bytes()))
            }
            1 => {
                m.print_to_file(&p).map_err(Fail::Bad)?;
                (String::new(), Model::from_file(p.clone()))
            }
            2 => {
                let s = serde_json::to_string(&m).map_err(|e| Fail::Bad(e.to_string()))?;
                (s.clone(), Model::from_json(&s))
            }
            _ => {
                m.print_to_json_file(&p).map_err(Fail::Bad)?;
                (String::new(), Model::from_json_file(p.clone()))
            }
        };
        c.desc(format!("{}\n{}\n", t, text));
        let (n, _) = back.map_err(|e| Fail::Bad(format!("A model written as {} is refused when read: {}", what, e)))?;
        let got: Facts = {
            let with: Facts = facts(&n);
            let holes: Vec<usize> = m.surfaces.iter().enumerate().filter(|(_, s)| s.vertices.n_inner_loops() > 0).map(|(i, _)| i).collect();
            with.into_iter().filter(|(k, _)| !holes.iter().any(|i| k.starts_with(&format!("Surface/{}/vertices", i)))).collect()
        };
        compare(what, &wanted, &got)?;
        let a1 = areas(&n);
        for (i, (a, b)) in a0.iter().zip(a1.iter()).enumerate() {
            ensure!((a - b).abs() < 1e-6 * (1. + a), "{}: surface {} had an area of {} m2 and after writing and reading it has {} m2", what, i, a, b);
            let (p, q) = (m.surfaces[i].normal(), n.surfaces[i].normal());
            ensure!(p * q > 1. - 1e-9, "{}: surface {} faced {} and after writing and reading it faces {}", what, i, p, q);
        }
        if how > 1 {
            ensure!(n.name == m.name, "{}: the name of the model was {:?} and now is {:?}", what, m.name, n.name);
        }
        // writing is stable
        if how == 0 {
            let again = n.to_string();
            let (k, _) = Model::from_bytes(again.as_bytes()).map_err(|e| Fail::Bad(format!("second writing is refused: {}", e)))?;
            compare("second writing", &facts(&n), &facts(&k))?;
        }
    }
    let _ = std::fs::remove_file(&path);
    c.event("written and read", 4);
    c.event("walls with windows", m.surfaces.iter().filter(|s| s.vertices.n_inner_loops() > 0).count() as u64);
    c.seen(&format!("{:?}", d));
    Ok(())
}

// ---------- hostile text ----------

fn hostile(c: &mut Case) -> R {
    let d = rnd_doc(&mut c.rng);
    let r = &mut c.rng;
    let is_json = r.chance(0.3);
    let mut t = if is_json { as_json(r, &d).into_bytes() } else { spl(r, &d).0.into_bytes() };
    if r.chance(0.3) {
        t.truncate(r.below(t.len() + 1));
    }
    for _ in 0..r.below(4) {
        if t.is_empty() {
            break;
        }
        let i = r.below(t.len());
        match r.below(7) {
            0 => {
                t.remove(i);
            }
            1 => t.insert(i, *r.pick(b"{}[]()\"'\\/*:,\n\0-+.eE0919\xff\xc3#")),
            2 => t[i] = r.below(256) as u8,
            3 => {
                let j = (i + r.below(30)).min(t.len());
                t.drain(i..j);
            }
            4 => {
                let j = (i + r.below(60)).min(t.len());
                let piece = t[i..j].to_vec();
                let k = r.below(t.len());
                t.splice(k..k, piece);
            }
            5 => {
                let bit: &[u8] = r.pick::<&[u8]>(&[b"Space", b"Surface {", b"}", b" null ", b" -1 ", b" 1e999 ", b" NaN ", b" Infinity ", b" true ", b" \"x\" ", b" [] ", b" {} ", b" 99999999999999999999 ", b"/*", b"//", b"Thing { name: 'x' }\n"]);
                t.splice(i..i, bit.iter().copied());
            }
            _ => {
                // the value of some field
                if let Some(k) = t[i..].iter().position(|b| *b == b':') {
                    let a = i + k + 1;
                    let e = t[a..].iter().position(|b| matches!(*b, b',' | b'}' | b'\n')).map(|e| a + e).unwrap_or(t.len());
                    let bit: &[u8] = r.pick::<&[u8]>(&[b"null", b"-1", b"1e999", b"true", b"'x'", b"[]", b"[1,2]", b"['a','b','c']", b"{}", b"[0,0,0,1,0,0,1,1]", b"[0,0,0]", b"[0,0,0,1,0,0,2,0,0]", b"[[0,0,0],[1,0,0],[1,1,0]]"]);
                    t.splice(a..e, bit.iter().copied());
                }
            }
        }
    }
    c.seen(&String::from_utf8_lossy(&t));
    c.desc(String::from_utf8_lossy(&t));
    let verdict = if is_json {
        match std::str::from_utf8(&t) {
            Ok(s) => Model::from_json(s).map(|_| ()),
            Err(_) => return Ok(()),
        }
    } else {
        Model::from_bytes(&t).map(|_| ())
    };
    match verdict {
        Ok(()) => c.event("accepted", 1),
        Err(_) => c.event("refused", 1),
    }
    Ok(())
}
/// Mistakes that have to be reported, and where
fn mistakes(c: &mut Case) -> R {
    let d = rnd_doc(&mut c.rng);
    let r = &mut c.rng;
    let mut d = d;
    let i = r.below(d.len());
    let kind = d[i].0;
    let what;
    match r.below(6) {
        0 => {
            what = "an unknown field";
            d[i].1.as_object_mut().unwrap().insert("colour_of_dreams".into(), json!(1));
            if kind == "Output" {
                return Ok(());
            }
        }
        1 => {
            let m = d[i].1.as_object_mut().unwrap();
            if m.remove("name").is_none() {
                return Ok(());
            }
            what = "no name";
        }
        2 => {
            let key = *r.pick(&["Surfce", "space", "Walls", "surface", "HVACs", "_"]);
            what = "an unknown kind of object";
            d[i].0 = key;
        }
        3 => {
            let m = d[i].1.as_object_mut().unwrap();
            let key = match kind {
                "Space" => "volume",
                "Material" => "thickness",
                "Building" => "n_storeys",
                "Luminaire" | "HVAC" => "target_space",
                "Construction" => "materials",
                "SiteDetails" => "latitude",
                "SolarOptions" => "n_solar_irradiance_points",
                "Surface" | "Fenestration" => "vertices",
                "Object" => "dimensions",
                _ => return Ok(()),
            };
            m.insert(key.into(), json!({"a": 1}));
            what = "a value of the wrong kind";
        }
        4 => {
            let m = d[i].1.as_object_mut().unwrap();
            let Some(v) = m.get_mut("vertices").and_then(|v| v.as_array_mut()) else { return Ok(()) };
            match r.below(5) {
                0 => {
                    v.pop();
                }
                1 => v[0] = json!("zero"),
                2 => v.truncate(6),
                3 => {
                    // one corner out of the plane of the others
                    let Some(((x, y), z)) = normal(&Value::Array(v.clone())) else { return Ok(()) };
                    let k = 3 * r.below(4);
                    for (i, d) in [x, y, z].iter().enumerate() {
                        v[k + i] = json!(v[k + i].as_f64().unwrap() + d);
                    }
                }
                _ => v[4] = Value::Null,
            }
            what = "a polygon that is not one";
        }
        _ => {
            let m = d[i].1.as_object_mut().unwrap();
            match kind {
                "Fenestration" => m.insert("category".into(), json!("Hatch")),
                "Surface" => m.insert("category".into(), json!("Tent")),
                "Space" => m.insert("purposes".into(), json!(["Ballroom"])),
                "Building" => m.insert("shelter_class".into(), json!("Igloo")),
                "SiteDetails" => m.insert("terrain".into(), json!("Moon")),
                "HVAC" | "Substance" => m.insert("type".into(), json!("Magic")),
                "Object" => m.insert("specifications".into(), json!({"type":"Ghost"})),
                _ => return Ok(()),
            };
            what = "a value that does not exist";
        }
    }
    // names in here could make other objects fail too: only this one is wrong, and the others point at it at most
    let (t, lines) = spl(r, &d);
    c.desc(format!("object {} ({}) has {}\n{}", i, kind, what, t));
    c.seen(&t);
    let got = Model::from_bytes(t.as_bytes());
    c.event("mistakes", 1);
    c.event(what, 1);
    match got {
        Ok(_) => Err(Fail::Bad(format!("A model in which object {} ({}) has {} is accepted", i, kind, what))),
        Err(e) => {
            ensure!(e.starts_with("Error [in line "), "The error does not say where: {}", e);
            let ln: usize = e["Error [in line ".len()..].split(']').next().unwrap().parse().map_err(|_| Fail::Bad(format!("The error does not say where: {}", e)))?;
            // removing a name or breaking an object read earlier can only be reported there, or where it is used
            if what != "no name" {
                ensure!(ln >= lines[i].0 && ln <= lines[i].1, "The error is in lines {} to {}, but it is reported in line {}: {}", lines[i].0, lines[i].1, ln, e);
            }
            if what != "an unknown kind of object" {
                let j = as_json(&mut c.rng, &d);
                ensure!(Model::from_json(&j).is_err(), "A model in JSON in which object {} ({}) has {} is accepted", i, kind, what);
            }
            Ok(())
        }
    }
}

// ---------- references ----------

/// Everything needed to simulate, with windows in walls
fn full_doc(r: &mut Rng) -> Result<Doc, Fail> {
    let mut h = rnd_house(r, true);
    h.walls.truncate(4);
    h.hvacs = vec![(r.below(h.vols.len()), true), (r.below(h.vols.len()), false)];
    h.lums = vec![r.below(h.vols.len())];
    let (m, _) = build(&h).map_err(Fail::Inconclusive)?;
    let mut d = doc_of_model(&m);
    d.push(("Building", json!({"name":"the building","n_storeys":2,"shelter_class":"Urban"})));
    for (k, v) in d.iter_mut() {
        if *k == "Space" {
            let o = v.as_object_mut().unwrap();
            o.insert("building".into(), json!("the building"));
            o.insert("infiltration".into(), json!({"type":"EffectiveAirLeakageArea","area":0.01}));
        }
        if *k == "Luminaire" {
            v.as_object_mut().unwrap().insert("max_power".into(), json!(10.));
        }
    }
    let con = d.iter().find(|(k, _)| *k == "Construction").unwrap().1["name"].clone();
    let (outer, holes) = plate(r, 1);
    d.push(("Surface", json!({"name":"big wall","vertices":flat(&outer),"construction":con,"front_boundary":{"type":"Space","space":space_name(0)}})));
    d.push(("Fenestration", json!({"name":"in big wall","vertices":flat(&holes[0]),"construction":con,"parent_surface":"big wall"})));
    d.push(("Object", json!({"name":"a thing","dimensions":{"x":1.,"y":1.,"z":1.},"space":space_name(0)})));
    d.push(("SolarOptions", json!({"n_solar_irradiance_points":1,"solar_ambient_divitions":4,"solar_sky_discretization":1})));
    Ok(d)
}
fn simulable(d: &Doc, r: &mut Rng) -> (bool, Result<(), String>) {
    let json_too = r.chance(0.5);
    let got = if json_too {
        Model::from_json(&as_json(r, d))
    } else {
        let t = spl(r, d).0;
        Model::from_bytes(t.as_bytes())
    };
    let (m, mut h) = match got {
        Ok(v) => v,
        Err(e) => return (true, Err(e)),
    };
    (false, MultiphysicsModel::new(&META, (), &m, &mut h, 1).map(|_| ()))
}
/// (object, path to the name)
fn references(d: &Doc) -> Vec<(usize, String)> {
    let mut v = vec![];
    for (i, (k, o)) in d.iter().enumerate() {
        let fields: &[&str] = match *k {
            "Surface" | "Fenestration" => &["/construction", "/front_boundary/space", "/back_boundary/space", "/parent_surface"],
            "Construction" => &["/materials/0", "/materials/1", "/materials/2"],
            "Material" => &["/substance"],
            "HVAC" | "Luminaire" => &["/target_space"],
            "Space" => &["/building"],
            "Object" => &["/space"],
            _ => &[],
        };
        for f in fields {
            if o.pointer(f).is_some() {
                v.push((i, f.to_string()));
            }
        }
    }
    v
}
fn dangling(c: &mut Case) -> R {
    let mut d = full_doc(&mut c.rng)?;
    let (_, ok) = simulable(&d, &mut c.rng);
    c.desc(format!("{:?}", d));
    ensure!(ok.is_ok(), "A model with all its references is refused: {}", ok.unwrap_err());
    let refs = references(&d);
    let (i, path) = refs[c.rng.below(refs.len())].clone();
    let gone = d[i].1.pointer(&path).unwrap().as_str().unwrap().to_string();
    // point somewhere else, or remove what it pointed at
    let missing = if c.rng.chance(0.6) {
        let n = match c.rng.below(4) {
            0 => format!("{} ", gone),
            1 => gone.to_uppercase(),
            2 => String::new(),
            _ => "nobody".into(),
        };
        if n == gone {
            return Ok(());
        }
        *d[i].1.pointer_mut(&path).unwrap() = json!(n);
        n
    } else {
        let kind = match path.as_str() {
            "/construction" => "Construction",
            "/parent_surface" => "Surface",
            "/substance" => "Substance",
            "/building" => "Building",
            p if p.starts_with("/materials") => "Material",
            _ => "Space",
        };
        let Some(k) = d.iter().position(|(k, v)| *k == kind && v["name"] == json!(gone)) else { return Ok(()) };
        d.remove(k);
        gone
    };
    let what = path.trim_start_matches('/').to_string();
    c.desc(format!("{} of object {} points at '{}', which does not exist\n{:?}", what, i, missing, d));
    c.seen(&format!("{} {} {}", what, i, d.len()));
    let (early, got) = simulable(&d, &mut c.rng);
    c.event("dangling references", 1);
    c.event(if early { "refused when read" } else { "refused before simulating" }, 1);
    match got {
        Ok(()) => Err(Fail::Bad(format!("A model whose {} is '{}', which does not exist, can be simulated", what, missing))),
        Err(e) => {
            ensure!(e.contains(&missing), "The error does not name the missing '{}': {}", missing, e);
            Ok(())
        }
    }
}

// ---------- windows ----------

fn carve(c: &mut Case) -> R {
    let wins = 1 + c.rng.below(4);
    let (outer, holes) = plate(&mut c.rng, wins);
    let bs = [
        Boundary::Outdoor,
        Boundary::Ground,
        Boundary::Adiabatic,
        Boundary::AmbientTemperature { temperature: 3. },
        Boundary::Space { space: "room".into() },
        Boundary::Space { space: "hall".into() },
    ];
    let mut m = Model::default();
    m.add_space(Space::new("room"));
    m.add_space(Space::new("hall"));
    m.add_construction(Construction::new("con"));
    let (fb, bb) = (c.rng.pick(&bs).clone(), c.rng.pick(&bs).clone());
    let wall_at = c.rng.below(3);
    for i in 0..3 {
        let (o, f, b) = if i == wall_at { (outer.clone(), fb.clone(), bb.clone()) } else { (plate(&mut c.rng, 0).0, Boundary::Outdoor, Boundary::Ground) };
        m.add_surface(Surface::new(format!("wall {}", i), polygon(&o)?, "con".into(), f, b))?;
    }
    let total = polygon(&outer)?.area();
    let wall_normal = polygon(&outer)?.normal();
    let mut left = total;
    let mut added = 0usize;
    let mut extras = vec![];
    c.desc(format!("wall {:?}, windows {:?}", outer, holes));
    let mut todo: Vec<(Vec<Point3D>, &str)> = holes.iter().map(|h| (h.clone(), "good")).collect();
    for _ in 0..2 {
        let h = c.rng.pick(&holes).clone();
        let bad = match c.rng.below(5) {
            0 => (h.iter().map(|p| Point3D::new(p.x + 100., p.y, p.z)).collect(), "outside"),
            1 => (h.iter().enumerate().map(|(i, p)| { let n = wall_normal * if i < 2 { 0.5 } else { 0. }; *p + n }).collect(), "tilted"),
            2 => (h.clone(), "no parent"),
            3 => (h.clone(), "no construction"),
            _ => (h.iter().map(|p| *p + wall_normal * 0.5).collect(), "in front"),
        };
        todo.push(bad);
    }
    let mut order: Vec<usize> = (0..todo.len()).collect();
    c.rng.shuffle(&mut order);
    for k in order {
        let (pts, what) = &todo[k];
        let p = polygon(pts).map_err(Fail::Inconclusive)?;
        let cat = *c.rng.pick(&[FenestrationType::Window, FenestrationType::Door, FenestrationType::Opening]);
        let con = if *what == "no construction" { "nothing" } else { "con" };
        if *what == "no construction" && cat == FenestrationType::Opening {
            continue;
        }
        let (gf, gb) = (c.rng.pick(&bs).clone(), c.rng.pick(&bs).clone());
        let mut f = Fenestration::new(format!("win {}", k), p.clone(), con.to_string(), cat, gf, gb);
        f.set_parent_surface(if *what == "no parent" { "no wall".to_string() } else { format!("wall {}", wall_at) });
        let before = format!("{:?}", m);
        let got = m.add_fenestration(f);
        if *what == "good" {
            let f = got.map_err(|e| Fail::Bad(format!("A window within its wall is refused: {}", e)))?;
            left -= p.area();
            let same = p.normal() * wall_normal > 0.;
            let (ef, eb) = if same { (&fb, &bb) } else { (&bb, &fb) };
            ensure!(format!("{:?}", f.front_boundary) == format!("{:?}", ef) && format!("{:?}", f.back_boundary) == format!("{:?}", eb),
                "window facing {} in a wall facing {} between {:?} and {:?} is between {:?} and {:?}", p.normal(), wall_normal, fb, bb, f.front_boundary, f.back_boundary);
            ensure!((f.area() - p.area()).abs() < 1e-9 && f.normal() * p.normal() > 0.999, "the window changed: {} m2 facing {}", f.area(), f.normal());
            added += 1;
            ensure!(m.fenestrations.len() == added, "{} windows were added but there are {}", added, m.fenestrations.len());
            extras.push(k);
            c.event(if same { "windows that face as the wall" } else { "windows that face the other way" }, 1);
        } else {
            ensure!(got.is_err(), "A window ({}) is accepted in its wall", what);
            let after = format!("{:?}", m);
            ensure!(before == after, "A window ({}) is refused, but the model changed: {} -> {}", what, before, after);
            c.event("refused windows", 1);
        }
        let a = m.surfaces[wall_at].area();
        ensure!((a - left).abs() < 1e-6, "A wall of {} m2 with windows that take {} m2 has {} m2", total, total - left, a);
        for i in 0..3 {
            let s = &m.surfaces[i];
            ensure!(i == wall_at || s.vertices.n_inner_loops() == 0, "The window was cut in another wall");
        }
        ensure!(m.surfaces[wall_at].vertices.n_inner_loops() == added, "{} windows in the wall, but {} holes", added, m.surfaces[wall_at].vertices.n_inner_loops());
    }
    // each window has its own opening in the state
    let st = m.take_state().ok_or("no state")?;
    let own: Vec<usize> = m.fenestrations.iter().filter_map(|f| f.open_fraction_index()).collect();
    ensure!(own.len() == added && st.elements.len() == added, "{} windows, {} openings, {} elements in the state", added, own.len(), st.elements.len());
    for (i, k) in own.iter().enumerate() {
        ensure!(st.elements[*k] == SimulationStateElement::FenestrationOpenFraction(i), "window {} is {:?} in the state", i, st.elements[*k]);
    }
    c.seen(&format!("{:?}", outer));
    Ok(())
}

// ---------- summaries ----------

fn summaries(c: &mut Case) -> R {
    let n = 1 + c.rng.below(3);
    let mut m = Model::default();
    for i in 0..n {
        m.add_space(Space::new(space_name(i)));
    }
    m.add_construction(Construction::new("con"));
    let mut want = vec![0.0; n];
    let mut text = vec![];
    for i in 0..c.rng.below(8) {
        let r = &mut c.rng;
        let (mut pts, holes) = {
            let (w, l, o) = (r.range(1., 9.), r.range(1., 9.), (r.range(-9., 9.), r.range(-9., 9.), r.range(-3., 9.)));
            let q = |x: f64, y: f64| Point3D::new(o.0 + x, o.1 + y, o.2);
            (vec![q(0., 0.), q(w, 0.), q(w, l), q(0., l)], vec![vec![q(w * 0.2, l * 0.2), q(w * 0.6, l * 0.2), q(w * 0.6, l * 0.7), q(w * 0.2, l * 0.7)]])
        };
        let up = r.chance(0.5);
        if !up {
            pts.reverse();
        }
        let mut p = polygon(&pts)?;
        if r.chance(0.3) {
            p.cut_hole(polygon(&holes[0])?.outer().clone())?;
        }
        let b = |r: &mut Rng| if r.chance(0.7) { let k = r.below(n); (Boundary::Space { space: space_name(k) }, Some(k)) } else { (r.pick(&[Boundary::Outdoor, Boundary::Ground, Boundary::Adiabatic]).clone(), None) };
        let (f, fk) = b(r);
        let (k, bk) = b(r);
        let mut s = Surface::new(format!("s {}", i), p.clone(), "con".to_string(), f, k);
        let cat = r.pick(&[SurfaceType::ExteriorWall, SurfaceType::InteriorWall, SurfaceType::GroundFloor, SurfaceType::ExteriorFloor, SurfaceType::InteriorFloor, SurfaceType::Ceiling, SurfaceType::Roof, SurfaceType::Other]).clone();
        let given = r.chance(0.8);
        let floor = given && matches!(cat, SurfaceType::GroundFloor | SurfaceType::ExteriorFloor | SurfaceType::InteriorFloor);
        if given {
            s.set_category(cat.clone());
        }
        text.push(format!("{:?} given {} up {} {:?} {:?} {}", cat, given, up, fk, bk, p.area()));
        m.add_surface(s)?;
        if floor {
            // what is above
            if let Some(k) = if up { fk } else { bk } {
                want[k] += p.area();
                c.event("floors", 1);
            }
        }
    }
    let mut sets = vec![];
    for i in 0..c.rng.below(4) {
        let r = &mut c.rng;
        let (h, k) = (if r.chance(0.6) { Some(r.range(15., 20.)) } else { None }, if r.chance(0.6) { Some(r.range(22., 28.)) } else { None });
        if r.chance(0.5) {
            let mut x = model::hvac::ElectricHeater::new(format!("h {}", i));
            if let Some(h) = h {
                x.set_heating_setpoint(h);
            }
            m.add_hvac(x.wrap())?;
            sets.push((format!("h {}", i), [h, None]));
        } else {
            let mut x = model::hvac::IdealHeaterCooler::new(format!("h {}", i));
            if let Some(h) = h {
                x.set_heating_setpoint(h);
            }
            if let Some(k) = k {
                x.set_cooling_setpoint(k);
            }
            m.add_hvac(x.wrap())?;
            sets.push((format!("h {}", i), [h, k]));
        }
    }
    let site = (c.rng.chance(0.7), [0; 3].map(|_| if c.rng.chance(0.8) { Some(c.rng.range(-60., 60.)) } else { None }));
    if site.0 {
        let mut s = SiteDetails::new();
        if let Some(v) = site.1[0] {
            s.set_latitude(v);
        }
        if let Some(v) = site.1[1] {
            s.set_longitude(v);
        }
        if let Some(v) = site.1[2] {
            s.set_standard_meridian(v);
        }
        m.site_details = Some(s);
    }
    c.desc(format!("{:?} {:?} {:?}", text, sets, site));
    c.seen(&format!("{:?} {:?} {:?}", text, sets, site));
    let (total, by) = m.get_space_sizes();
    ensure!(by.len() == n, "{} spaces, {} floor areas", n, by.len());
    for (i, w) in want.iter().enumerate() {
        let g = by.get(&space_name(i)).copied().ok_or_else(|| format!("{} has no floor area", space_name(i)))?;
        ensure!((g - w).abs() < 1e-6, "{} has {} m2 of floor but {} are reported", space_name(i), w, g);
    }
    let sum: f64 = want.iter().sum();
    ensure!((total - sum).abs() < 1e-6, "There are {} m2 of floor but {} are reported", sum, total);
    let got = m.get_hvac_setpoints();
    ensure!(got.len() == sets.len(), "{} HVACs, {} with setpoints", sets.len(), got.len());
    for (k, v) in &sets {
        ensure!(got.get(k) == Some(v), "{} has setpoints {:?} but {:?} is reported", k, v, got.get(k));
    }
    let loc = match (site.0, site.1) {
        (true, [Some(a), Some(b), Some(k)]) => Some((a, b, k)),
        _ => None,
    };
    ensure!(m.geolocation() == loc, "The site is {:?} but {:?} is reported", loc, m.geolocation());
    Ok(())
}

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "X01",
        rule: "random models with every kind of object and field, written as a user would (any order, blanks, comments, quotes, escapes, trailing commas, braces in names and comments) and as JSON: all the values in the model against those written. Non-trivial: distinct models.",
        assumptions: &["names are unique"],
        workloads: &[wl("read", 2000, 60000, read).need(&[("values", 50000), ("windows in walls", 500), ("files", 50)])],
    },
    &Prop { id: "X02", rule: "random models written as text and as JSON, to strings and to files, and read back: all the values, and the areas and orientation of the walls with windows, against those before. Non-trivial: distinct models.", assumptions: &["windows become part of the outline of their walls"], workloads: &[wl("write", 1500, 40000, write).need(&[("written and read", 3000), ("walls with windows", 300)])] },
    &Prop {
        id: "X03",
        rule: "model files cut, spliced, and with bytes, words and values changed at random: an answer, never a panic, nor an endless loop; files with one known mistake are refused, and the line reported is one of those of the object that has it. Non-trivial: distinct files.",
        assumptions: &["nesting is not deeper than that of a model"],
        workloads: &[wl("hostile", 10000, 300000, hostile).need(&[("accepted", 100), ("refused", 3000)]), wl("mistakes", 2000, 60000, mistakes).need(&[("mistakes", 800)])],
    },
    &Prop { id: "X04", rule: "random models that can be simulated, where one name used by some object is changed, or what it names is removed: refused when read or before simulating, naming what is missing. Non-trivial: distinct references and models.", assumptions: &["outputs of things that do not exist are ignored by design"], workloads: &[wl("dangling", 600, 12000, dangling).need(&[("dangling references", 300)])] },
    &Prop { id: "X05", rule: "random walls and windows in them, facing the same or the other way, added in random order among windows that cannot be: the areas, holes, boundaries and state against our own account; refusals change nothing. Non-trivial: distinct walls.", assumptions: &[], workloads: &[wl("carve", 3000, 100000, carve).need(&[("windows that face the other way", 500), ("windows that face as the wall", 500), ("refused windows", 1000)])] },
    &Prop { id: "X07", rule: "random floors (facing up or down, of every category, with holes, between spaces), HVACs and sites: floor area per space, setpoints and location against those given. Non-trivial: distinct models.", assumptions: &["floors are horizontal"], workloads: &[wl("summaries", 5000, 100000, summaries).need(&[("floors", 2000)])] },
];
