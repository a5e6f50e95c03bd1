//! The programs, from the command line, against what the library does.
use super::sim::{built, mild, small_house};
use crate::core::*;
use crate::ensure;
use model::Model;
use rendering::colourmap::Colourmap;
use rendering::image::ImageBuffer;
use rendering::{Camera, CameraSample, Film, Pinhole, RayTracer, Scene, Spectrum, View};
use simple::run_simulation::{run, run_rhai, SimOptions};
use simple::VoidControl;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}
/// runs one of the programs; they live beside this one
fn prog(name: &str, args: &[String]) -> Result<Ran, Fail> {
    let inc = |e: String| Fail::Inconclusive(format!("{}: {}", name, e));
    let mut exe = std::env::current_exe().map_err(|e| inc(e.to_string()))?;
    exe.set_file_name(format!("prog_{}", name));
    // through files, so that nothing can block
    let (fo, fe) = (scratch(".stdout"), scratch(".stderr"));
    let open = |f: &str| std::fs::File::create(f).map_err(|e| Fail::Inconclusive(e.to_string()));
    let mut child = Command::new(exe)
        .args(args)
        .env("RAYON_NUM_THREADS", "2")
        .stdin(Stdio::null())
        .stdout(open(&fo)?)
        .stderr(open(&fe)?)
        .spawn()
        .map_err(|e| inc(e.to_string()))?;
    let start = Instant::now();
    let status = loop {
        match child.try_wait().map_err(|e| inc(e.to_string()))? {
            Some(s) => break s,
            None if start.elapsed() > Duration::from_secs(300) => {
                let _ = child.kill();
                let _ = child.wait();
                return Err(inc("took too long".into()));
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    let r = Ran {
        code: status.code(),
        out: std::fs::read(&fo).unwrap_or_default(),
        err: String::from_utf8_lossy(&std::fs::read(&fe).unwrap_or_default()).to_string(),
    };
    let _ = std::fs::remove_file(fo);
    let _ = std::fs::remove_file(fe);
    Ok(r)
}
/// options may be short or long, and separate or together
fn opt(r: &mut Rng, short: &str, long: &str, v: &str) -> Vec<String> {
    match r.below(4) {
        0 if !v.starts_with('-') => vec![format!("--{}", long), v.into()],
        1 => vec![format!("--{}={}", long, v)],
        2 if !v.starts_with('-') => vec![format!("-{}", short), v.into()],
        _ => vec![format!("-{}={}", short, v)],
    }
}
fn good(what: &str, x: &Ran) -> R {
    ensure!(x.code == Some(0), "{} ended with {:?}: {}", what, x.code, x.err);
    Ok(())
}
fn bad(what: &str, x: &Ran) -> R {
    ensure!(
        x.code.is_some() && x.code != Some(0) && !x.err.contains("panicked"),
        "{} ended with {:?}: {}",
        what,
        x.code,
        x.err
    );
    Ok(())
}
struct Files(Vec<String>);
impl Files {
    fn new(&mut self, ext: &str) -> String {
        let f = scratch(ext);
        self.0.push(f.clone());
        f
    }
}
impl Drop for Files {
    fn drop(&mut self) {
        for f in &self.0 {
            let _ = std::fs::remove_file(f);
        }
    }
}
fn read_model(f: &str) -> Result<(Model, model::SimulationStateHeader), String> {
    if f.ends_with(".json") {
        Model::from_json_file(f)
    } else {
        Model::from_file(f)
    }
}
fn simulate(c: &mut Case) -> R {
    let mut files = Files(vec![]);
    let h = small_house(&mut c.rng);
    let mut own = c.rng.clone();
    let r = &mut own;
    let optical = files.new(".json");
    let (mut m, mut header) = built(&h, &optical)?;
    if r.chance(0.7) {
        m.outputs.clear();
    }
    // so that the optical data exist
    let records = 2 + r.below(12);
    let w = mild(r, records, 1.);
    let wfile = files.new(".sw");
    let text = serde_json::to_string(&w).map_err(|e| e.to_string())?;
    std::fs::write(&wfile, text).map_err(|e| e.to_string())?;
    let n = *r.pick(&[1usize, 1, 2, 4, 7]);
    let options = |n: usize| SimOptions { weather_file: Some(wfile.clone()), n, ..SimOptions::default() };
    run(&m, &mut header, &options(1), std::io::sink(), VoidControl {})?;
    let input = files.new(*r.pick(&[".json", ".spl"]));
    if input.ends_with(".json") {
        m.print_to_json_file(&input)?;
    } else {
        m.print_to_file(&input)?;
    }
    let before = std::fs::read(&input).map_err(|e| e.to_string())?;
    let Ok((m2, mut header2)) = read_model(&input) else {
        c.event("not readable", 1);
        return Ok(());
    };
    let mut args = opt(r, "i", "input-file", &input);
    let mode = r.below(8);
    c.desc(format!("mode {} n {} {} {:?}", mode, n, input, h));
    match mode {
        0 => {
            // only checking
            args.push("--check".into());
            if r.chance(0.5) {
                args.extend(opt(r, "w", "weather-file", &wfile));
            }
            let out = files.new(".csv");
            if r.chance(0.5) {
                args.extend(opt(r, "o", "output", &out));
            }
            let x = prog("simple", &args)?;
            good("checking", &x)?;
            ensure!(x.out.is_empty() && !Path::new(&out).exists(), "checking a model produced something");
            c.event("checked", 1);
        }
        1 => {
            // something is wrong
            let what = r.below(7);
            let out = files.new(".csv");
            match what {
                0 => args.extend(opt(r, "n", "n", "0")),
                1 => args = opt(r, "i", "input-file", &format!("{}.not", input)),
                2 => args = opt(r, "i", "input-file", "/nonexistent/model.spl"),
                3 => {
                    let f = files.new(&format!(".{}", if input.ends_with(".json") { "json" } else { "spl" }));
                    let mut t = before.clone();
                    t.truncate(t.len() / 2);
                    t.extend_from_slice(b"{{");
                    std::fs::write(&f, t).map_err(|e| e.to_string())?;
                    args = opt(r, "i", "input-file", &f);
                }
                4 => args.extend(opt(r, "t", "translate", &files.new(".txt"))),
                5 => args.extend(opt(r, "c", "control-file", "/nonexistent/control.rhai")),
                _ => {}
            }
            if what != 6 {
                args.extend(opt(r, "w", "weather-file", &wfile));
            } else {
                match r.below(3) {
                    0 => {}
                    1 => args.extend(opt(r, "w", "weather-file", "/nonexistent/weather.epw")),
                    _ => {
                        args.extend(opt(r, "w", "weather-file", &wfile));
                        args.extend(opt(r, "o", "output", "/nonexistent/results.csv"));
                    }
                }
            }
            if r.chance(0.5) && !args.iter().any(|a| a.contains("results.csv")) {
                args.extend(opt(r, "o", "output", &out));
            }
            let x = prog("simple", &args)?;
            bad(&format!("mistake {}", what), &x)?;
            c.event("refused", 1);
        }
        2 | 3 => {
            let (to, exp) = if r.chance(0.5) {
                let (a, b) = (files.new(".json"), files.new(".json"));
                m2.print_to_json_file(&b)?;
                (a, b)
            } else {
                let (a, b) = (files.new(".spl"), files.new(".spl"));
                m2.print_to_file(&b)?;
                (a, b)
            };
            args.extend(opt(r, "t", "translate", &to));
            if r.chance(0.5) {
                args.extend(opt(r, "w", "weather-file", &wfile));
            }
            let x = prog("simple", &args)?;
            good("translating", &x)?;
            let (a, b) = (std::fs::read(&to), std::fs::read(&exp));
            ensure!(
                a.is_ok() && a.as_ref().ok() == b.as_ref().ok(),
                "{} was translated into {:?}, not {:?}",
                input,
                a.map(|a| String::from_utf8_lossy(&a).to_string()),
                b.map(|a| String::from_utf8_lossy(&a).to_string())
            );
            ensure!(x.out.is_empty(), "translating simulated as well");
            c.event("translated", 1);
        }
        _ => {
            args.extend(opt(r, "w", "weather-file", &wfile));
            if n != 1 || r.chance(0.5) {
                args.extend(opt(r, "n", "n", &n.to_string()));
            }
            let script = if r.chance(0.4) {
                let f = files.new(".rhai");
                let mut s = String::new();
                for i in 0..m2.hvacs.len() {
                    s += &format!("let h = hvac({}); h.power_consumption = {:.2};\n", i, r.range(0., 20.));
                }
                for i in 0..m2.luminaires.len() {
                    s += &format!("let l = luminaire({}); l.power_consumption = {:.2};\n", i, r.range(0., 20.));
                }
                std::fs::write(&f, s).map_err(|e| e.to_string())?;
                args.extend(opt(r, "c", "control-file", &f));
                Some(f)
            } else {
                None
            };
            let mut exp: Vec<u8> = vec![];
            match &script {
                Some(f) => run_rhai(m2, &mut header2, &options(n), f, &mut exp)?,
                None => run(&m2, &mut header2, &options(n), &mut exp, VoidControl {})?,
            }
            let out = files.new(".csv");
            let to_file = r.chance(0.5);
            if to_file {
                if r.chance(0.5) {
                    // a longer, older one
                    std::fs::write(&out, vec![b'x'; exp.len() + 100]).map_err(|e| e.to_string())?;
                }
                args.extend(opt(r, "o", "output", &out));
            }
            let x = prog("simple", &args)?;
            good("simulating", &x)?;
            let got = if to_file {
                ensure!(x.out.is_empty(), "results were asked in a file, and are in the screen");
                std::fs::read(&out).map_err(|e| Fail::Bad(format!("no results: {}", e)))?
            } else {
                x.out
            };
            if got != exp {
                let (a, b) = (String::from_utf8_lossy(&got), String::from_utf8_lossy(&exp));
                let i = a.lines().zip(b.lines()).position(|(x, y)| x != y);
                ensure!(
                    false,
                    "results ({} lines) are not those of the library ({} lines): {:?}",
                    a.lines().count(),
                    b.lines().count(),
                    i.map(|i| (i, a.lines().nth(i), b.lines().nth(i)))
                );
            }
            c.event("simulated", 1);
            c.event("lines", exp.iter().filter(|x| **x == b'\n').count() as u64);
        }
    }
    ensure!(
        std::fs::read(&input).ok() == Some(before),
        "the input file changed"
    );
    c.seen(&format!("{} {} {}", mode, n, header.elements.len()));
    Ok(())
}
fn rnd_image(r: &mut Rng, w: usize, h: usize) -> ImageBuffer {
    let mut img = ImageBuffer::new(w, h);
    for y in 0..h {
        for x in 0..w {
            let k = if r.chance(0.05) { 0. } else { r.logu(1e-3, 1e4) };
            img[(x, y)] = Spectrum([k * r.f(), k * r.f(), k * r.f()]);
        }
    }
    img
}
const MAPS: [(&str, Colourmap); 5] = [
    ("radiance", Colourmap::Radiance),
    ("inferno", Colourmap::Inferno),
    ("magma", Colourmap::Magma),
    ("plasma", Colourmap::Plasma),
    ("viridis", Colourmap::Viridis),
];
fn map(i: usize) -> Colourmap {
    match i {
        0 => Colourmap::Radiance,
        1 => Colourmap::Inferno,
        2 => Colourmap::Magma,
        3 => Colourmap::Plasma,
        _ => Colourmap::Viridis,
    }
}
fn pictures(c: &mut Case) -> R {
    let mut files = Files(vec![]);
    let mut own = c.rng.clone();
    let r = &mut own;
    let (w, h) = (1 + r.below(24), 1 + r.below(24));
    let (fa, fb) = (files.new(".hdr"), files.new(".hdr"));
    let (out, exp) = (files.new(".out"), files.new(".out"));
    rnd_image(r, w, h).save_hdre(Path::new(&fa))?;
    let compare = r.chance(0.6);
    let fit = !compare || r.chance(0.8);
    if fit {
        rnd_image(r, w, h).save_hdre(Path::new(&fb))?;
    } else {
        rnd_image(r, w + 1, h).save_hdre(Path::new(&fb))?;
    }
    let i = r.below(5);
    let false_colour = !compare || r.chance(0.5);
    let log = r.chance(0.4);
    let lim = r.logu(1., 1e4);
    let max = if r.chance(0.5) { Some(lim) } else { None };
    let min = if r.chance(0.5) { Some(if r.chance(0.3) { 0.5 } else { lim * r.range(0.01, 0.9) }) } else { None };
    let mut args = vec![];
    if compare {
        args.extend([format!("-a={}", fa), "-b".into(), fb.clone()]);
    } else {
        args.extend(opt(r, "i", "input", &fa));
    }
    args.extend(opt(r, "o", "output", &out));
    if false_colour {
        args.extend(opt(r, "m", "map", MAPS[i].0));
    }
    if let Some(x) = max {
        args.extend(opt(r, "s", "max", &format!("{:?}", x)));
    }
    if let Some(x) = min {
        args.push(format!("--min={:?}", x));
    }
    if log {
        args.push(if r.chance(0.5) { "-l".into() } else { "--log".into() });
    }
    c.desc(format!("{} x {} {:?}", w, h, args));
    let x = prog(if compare { "scompare" } else { "sfalsecolor" }, &args)?;
    if !fit {
        bad("comparing images that do not fit", &x)?;
        c.event("refused", 1);
        return Ok(());
    }
    good("images", &x)?;
    let a = ImageBuffer::from_file(Path::new(&fa))?;
    let img = if compare { ImageBuffer::from_file(Path::new(&fb))?.diff(&a)? } else { a };
    if !false_colour {
        img.save_hdre(Path::new(&exp))?;
    } else if log {
        img.save_log_falsecolour(min, max, map(i), Path::new(&exp))?;
    } else {
        img.save_falsecolour(min, max, map(i), Path::new(&exp))?;
    }
    ensure!(
        std::fs::read(&out).ok() == std::fs::read(&exp).ok() && Path::new(&exp).exists(),
        "the image is not that of the library"
    );
    c.event(if compare { "compared" } else { "coloured" }, 1);
    c.seen(&format!("{:?}", args.iter().filter(|a| !a.contains('/')).collect::<Vec<_>>()));
    Ok(())
}
fn rad_scene(r: &mut Rng) -> String {
    let mut s = String::new();
    for i in 0..1 + r.below(5) {
        s += &format!("void light l{}\n0\n0\n3 {:.3} {:.3} {:.3}\n", i, r.range(0.1, 9.), r.range(0.1, 9.), r.range(0.1, 9.));
        let (x, y, z) = (r.range(-3., 3.), r.range(4., 9.), r.range(-3., 3.));
        if r.chance(0.4) {
            s += &format!("l{} sphere s{}\n0\n0\n4 {:.3} {:.3} {:.3} {:.3}\n", i, i, x, y, z, r.range(0.2, 1.5));
        } else {
            let k = r.range(0.3, 2.);
            s += &format!(
                "l{} polygon p{}\n0\n0\n12 {:.3} {:.3} {:.3} {:.3} {:.3} {:.3} {:.3} {:.3} {:.3} {:.3} {:.3} {:.3}\n",
                i, i, x, y, z, x + k, y, z, x + k, y, z + k, x, y, z + k
            );
        }
    }
    s
}
fn rays(c: &mut Case) -> R {
    let mut files = Files(vec![]);
    let mut own = c.rng.clone();
    let r = &mut own;
    let rad = files.new(".rad");
    let out = files.new(".out");
    if r.chance(0.2) {
        // not a scene
        let mut args = opt(r, "i", "input", "/nonexistent/scene.rad");
        if r.chance(0.5) {
            args = opt(r, "i", "input", "scene.obj");
        }
        args.extend(opt(r, "o", "output", &out));
        let which = *r.pick(&["spict", "sfluxmtx"]);
        if which == "spict" {
            args.extend(["-p=0 0 0".into(), "-d=0 1 0".into()]);
        }
        c.desc(format!("{} {:?}", which, args));
        bad("a scene that does not exist", &prog(which, &args)?)?;
        c.event("refused", 1);
        return Ok(());
    }
    if r.chance(0.5) {
        let txt = rad_scene(r);
        std::fs::write(&rad, &txt).map_err(|e| e.to_string())?;
        let (w, h) = (1 + r.below(30), 1 + r.below(30));
        let fov = if r.chance(0.3) { 60. } else { r.range(20., 100.) };
        let v = |r: &mut Rng, k: f64| [r.range(-k, k), r.range(-k, k), r.range(-k, k)];
        let (p, d) = (v(r, 1.), [r.range(-0.4, 0.4), r.range(0.5, 2.), r.range(-0.4, 0.4)]);
        let up = if r.chance(0.5) { [0., 0., 1.] } else { [r.range(-0.5, 0.5), r.range(-0.2, 0.2), 1.] };
        let t = |a: [f64; 3]| format!("{:?} {:?} {:?}", a[0], a[1], a[2]);
        let mut args = opt(r, "i", "input", &rad);
        args.extend(opt(r, "o", "output", &out));
        args.extend(opt(r, "x", "x", &w.to_string()));
        args.extend(opt(r, "y", "y", &h.to_string()));
        args.extend(opt(r, "p", "view-point", &t(p)));
        args.extend(opt(r, "d", "view-direction", &t(d)));
        if up[0] != 0. {
            args.extend(opt(r, "u", "view-up", &t(up)));
        }
        if fov != 60. {
            args.extend(opt(r, "h", "view_horizontal", &format!("{:?}", fov)));
        }
        if r.chance(0.5) {
            args.extend(opt(r, "s", "shadow_samples", "3"));
        }
        args.extend(opt(r, "a", "ambient_samples", "2"));
        c.desc(format!("{:?}\n{}", args, txt));
        let x = prog("spict", &args)?;
        good("rendering", &x)?;
        let got = ImageBuffer::from_file(Path::new(&out))?;
        let mut s = Scene::from_radiance_source(txt.as_bytes())?;
        s.build_accelerator();
        let view = View {
            view_direction: geometry::Vector3D::new(d[0], d[1], d[2]).get_normalized(),
            view_point: geometry::Point3D::new(p[0], p[1], p[2]),
            view_up: geometry::Vector3D::new(up[0], up[1], up[2]).get_normalized(),
            field_of_view: fov,
        };
        let cam = Pinhole::new(view, Film { resolution: (w, h) });
        ensure!((got.width, got.height) == (w, h), "the image is {} x {}", got.width, got.height);
        let tracer = RayTracer { n_ambient_samples: 2, n_shadow_samples: 3, max_depth: 2 };
        let img = tracer.clone().render(&s, &cam);
        let f2 = files.new(".hdr");
        img.save_hdre(Path::new(&f2))?;
        let want = ImageBuffer::from_file(Path::new(&f2))?;
        let mut rng = rendering::rand::get_rng();
        let mut aux = [0; 32];
        for y in 0..h {
            for x in 0..w {
                let (ray, _) = cam.gen_ray(&CameraSample { p_film: (x, y) });
                let v = tracer.trace_ray(&mut rng, &s, ray, &mut aux);
                let (a, b) = (got[(x, y)].0, want[(x, y)].0);
                let same = (0..3).all(|k| (a[k] - b[k]).abs() <= 0.02 * (1e-3 + b[0].max(b[1]).max(b[2])));
                ensure!(same, "pixel ({}, {}) is {:?}, not {:?} ({:?})", x, y, a, b, v.0);
                c.event(if a[0] > 0. { "lit pixels" } else { "dark pixels" }, 1);
            }
        }
        c.event("rendered", 1);
        c.seen(&txt);
        return Ok(());
    }
    // coefficients without obstructions, but for the ground
    let floor = r.chance(0.5);
    let mut txt = "void plastic black 0 0 5 0 0 0 0 0\n".to_string();
    if floor {
        txt += "black polygon floor 0 0 12 -50 -50 0 50 -50 0 50 50 0 -50 50 0\n";
    } else {
        txt += "black polygon roof 0 0 12 -60000 -60000 3 60000 -60000 3 60000 60000 3 -60000 60000 3\n";
    }
    std::fs::write(&rad, &txt).map_err(|e| e.to_string())?;
    let mf = 1 + r.below(3);
    let n = 50 + r.below(500);
    let mut args = opt(r, "i", "input", &rad);
    args.extend(opt(r, "o", "output", &out));
    if mf != 1 {
        args.extend(opt(r, "m", "sky_subdivision", &mf.to_string()));
    }
    args.extend(opt(r, "a", "ambient_samples", &n.to_string()));
    if r.chance(0.5) {
        args.extend(opt(r, "b", "max_depth", "3"));
    }
    c.desc(format!("{:?}\n{}", args, txt));
    good("coefficients", &prog("sfluxmtx", &args)?)?;
    let dc = rendering::colour_matrix::read_colour_matrix(Path::new(&out))?;
    let bins = weather::ReinhartSky::n_bins(mf);
    let (rows, cols) = dc.size();
    ensure!(cols == bins && rows > 0, "the coefficients are {} x {}, for {} patches", rows, cols, bins);
    for i in 0..rows {
        let mut sum = 0.;
        for j in 0..cols {
            let v = dc.get(i, j)?.0[0];
            // each ray counts the same
            let k = v * n as f64 / std::f64::consts::PI;
            ensure!(v >= 0. && (k - k.round()).abs() < 1e-3, "a coefficient is {}: {} rays of {}", v, k, n);
            sum += v;
        }
        let want = if floor { std::f64::consts::PI } else { 0. };
        ensure!((sum - want).abs() < 0.02, "the coefficients of row {} add {}, not {}", i, sum, want);
    }
    c.event("coefficients", 1);
    c.seen(&format!("{} {} {}", mf, n, floor));
    Ok(())
}
pub static PROPS: &[&Prop] = &[&Prop {
    id: "B01",
    rule: "the five programs are run with random buildings, weather, scripts, images and scenes, with short and long options: results, translations and images against those of the library for the same files; mistakes end with an error. Non-trivial: distinct (mode, options).",
    assumptions: &["what the library calculates is judged by the other properties"],
    workloads: &[
        wl("simulate", 700, 8000, simulate).need(&[("simulated", 60), ("translated", 20), ("checked", 10), ("refused", 10), ("lines", 300)]),
        wl("pictures", 700, 8000, pictures).need(&[("compared", 60), ("coloured", 50), ("refused", 10)]),
        wl("rays", 500, 6000, rays).need(&[("rendered", 30), ("coefficients", 30), ("refused", 15), ("lit pixels", 300), ("dark pixels", 1000)]),
    ],
}];
