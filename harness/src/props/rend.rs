//! Rendering: rays, materials, sampling, images, matrices, daylight coefficients.
use crate::core::*;
use crate::{ensure, incon};
use geometry::intersection::SurfaceSide;
use geometry::{Point3D, Ray3D, Sphere3D, Triangle3D, Vector3D};
use rendering::colourmap::Colourmap;
use rendering::material::{Diffuse, Light, Material};
use rendering::primitive::Primitive;
use rendering::triangle::Triangle;
use rendering::{Scene, Spectrum};

type V = [f64; 3];
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn add(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn mul(a: V, k: f64) -> V {
    [a[0] * k, a[1] * k, a[2] * k]
}
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: V, b: V) -> V {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
fn len(a: V) -> f64 {
    dot(a, a).sqrt()
}
fn unit(a: V) -> V {
    mul(a, 1. / len(a))
}
fn pt(a: V) -> Point3D {
    Point3D::new(a[0], a[1], a[2])
}
fn ve(a: V) -> Vector3D {
    Vector3D::new(a[0], a[1], a[2])
}
fn fp(a: Point3D) -> V {
    [a.x, a.y, a.z]
}
fn fv(a: Vector3D) -> V {
    [a.x, a.y, a.z]
}
fn rnd_dir(r: &mut Rng) -> V {
    loop {
        let v = [r.normal(), r.normal(), r.normal()];
        if len(v) > 1e-3 {
            return unit(v);
        }
    }
}
fn rnd_pt(r: &mut Rng, s: f64) -> V {
    [r.range(-s, s), r.range(-s, s), r.range(-s, s)]
}
/// some unit vector that is perpendicular to another
fn perp(n: V) -> V {
    let a = if n[0].abs() < 0.6 {
        [1., 0., 0.]
    } else {
        [0., 1., 0.]
    };
    unit(cross(n, a))
}

// ---------------------------------------------------------------- nearest surfaces
type Tri = [V; 3];
/// (t, margin): where a ray crosses the plane of a triangle, and how far inside
/// of the triangle it does (in terms of its smallest height; negative = outside)
fn crossing(t: &Tri, o: V, d: V) -> Option<(f64, f64, f64)> {
    let n = cross(sub(t[1], t[0]), sub(t[2], t[0]));
    let area2 = len(n);
    if area2 <= 0. {
        return None;
    }
    let n = mul(n, 1. / area2);
    let c = dot(n, d);
    if c.abs() < 1e-12 {
        return None;
    }
    let k = dot(n, sub(t[0], o)) / c;
    let p = add(o, mul(d, k));
    let mut m = f64::MAX;
    for i in 0..3 {
        let (a, b) = (t[i], t[(i + 1) % 3]);
        m = m.min(dot(cross(sub(b, a), sub(p, a)), n) / area2);
    }
    Some((k, m, c.abs()))
}

struct Soup {
    scene: Scene,
    tris: Vec<Tri>,
    mats: Vec<(usize, usize)>,
    kind: &'static str,
}
fn put(s: &mut Soup, t: Tri, f: usize, b: usize) {
    let Ok(tri) = Triangle3D::new(pt(t[0]), pt(t[1]), pt(t[2])) else {
        return;
    };
    s.scene.push_object(f, b, Primitive::Triangle(tri));
    s.tris.push(t);
    s.mats.push((f, b));
}
fn rnd_soup(r: &mut Rng) -> Soup {
    let mut s = Soup {
        scene: Scene::new(),
        tris: vec![],
        mats: vec![],
        kind: "",
    };
    let n_mats = 1 + r.below(6);
    for i in 0..n_mats {
        let col = Spectrum([r.f(), r.f(), i as f64]);
        s.scene.push_material(if r.chance(0.1) {
            Material::Light(Light(col))
        } else {
            Material::Diffuse(Diffuse { colour: col })
        });
    }
    let size = r.logu(0.5, 200.);
    match r.below(8) {
        0 | 1 => {
            s.kind = "soup";
            let n = 1 + r.below(*r.clone().pick(&[4, 30, 300]));
            for _ in 0..n {
                let c = rnd_pt(r, size);
                let k = size * r.logu(0.01, 1.);
                let t = [
                    add(c, rnd_pt(r, k)),
                    add(c, rnd_pt(r, k)),
                    add(c, rnd_pt(r, k)),
                ];
                let (f, b) = (r.below(n_mats), r.below(n_mats));
                put(&mut s, t, f, b);
            }
        }
        2 | 3 => {
            s.kind = "boxes";
            // rooms with furniture, aligned with the axes
            let n = 1 + r.below(8);
            for i in 0..n {
                let c = if i == 0 {
                    [0.; 3]
                } else {
                    rnd_pt(r, 0.6 * size)
                };
                let h: V = if i == 0 {
                    [size, size * r.range(0.3, 1.), size * r.range(0.1, 0.5)]
                } else {
                    [
                        size * r.range(0.02, 0.2),
                        size * r.range(0.02, 0.2),
                        size * r.range(0.02, 0.2),
                    ]
                };
                let (f, b) = (r.below(n_mats), r.below(n_mats));
                for ax in 0..3 {
                    for side in [-1., 1.] {
                        if r.chance(0.05) {
                            continue;
                        }
                        let q: Vec<V> = [(-1., -1.), (1., -1.), (1., 1.), (-1., 1.)]
                            .iter()
                            .map(|(u, v)| {
                                let mut p = c;
                                p[ax] += side * h[ax];
                                p[(ax + 1) % 3] += u * h[(ax + 1) % 3];
                                p[(ax + 2) % 3] += v * h[(ax + 2) % 3];
                                p
                            })
                            .collect();
                        put(&mut s, [q[0], q[1], q[2]], f, b);
                        put(&mut s, [q[0], q[2], q[3]], f, b);
                    }
                }
            }
        }
        4 => {
            s.kind = "mesh";
            // a bumpy or flat terrain
            let n = 2 + r.below(16);
            let bump = if r.chance(0.5) { 0. } else { size * 0.05 };
            let z: Vec<f64> = (0..(n + 1) * (n + 1)).map(|_| bump * r.normal()).collect();
            let axis = r.below(3);
            let at = |i: usize, j: usize| -> V {
                let mut p = [0.; 3];
                p[axis] = z[i * (n + 1) + j];
                p[(axis + 1) % 3] = size * (i as f64 / n as f64 - 0.5);
                p[(axis + 2) % 3] = size * (j as f64 / n as f64 - 0.5);
                p
            };
            for i in 0..n {
                for j in 0..n {
                    let (f, b) = (r.below(n_mats), r.below(n_mats));
                    put(&mut s, [at(i, j), at(i + 1, j), at(i + 1, j + 1)], f, b);
                    put(&mut s, [at(i, j), at(i + 1, j + 1), at(i, j + 1)], f, b);
                }
            }
        }
        5 => {
            s.kind = "copies";
            // things that are repeated in the same place, among others
            let n = 1 + r.below(5);
            for _ in 0..n {
                let c = rnd_pt(r, size);
                let t = [
                    add(c, rnd_pt(r, 0.5 * size)),
                    add(c, rnd_pt(r, 0.5 * size)),
                    add(c, rnd_pt(r, 0.5 * size)),
                ];
                let copies = if r.chance(0.02) {
                    33000
                } else {
                    1 + r.below(60)
                };
                for _ in 0..copies {
                    let (f, b) = (r.below(n_mats), r.below(n_mats));
                    put(&mut s, t, f, b);
                }
            }
        }
        6 => {
            s.kind = "row";
            // things that get smaller and closer, so they are hard to divide
            let q = r.range(1.05, 3.);
            let n = 5 + r.below(150);
            let ax = r.below(3);
            let mut x = 1e4_f64;
            for _ in 0..n {
                let mut c = [0.; 3];
                c[ax] = x;
                let k = 0.1 * x;
                if k < 0.05 {
                    break;
                }
                let t = [
                    add(c, rnd_pt(r, k)),
                    add(c, rnd_pt(r, k)),
                    add(c, rnd_pt(r, k)),
                ];
                let (f, b) = (r.below(n_mats), r.below(n_mats));
                put(&mut s, t, f, b);
                x /= q;
            }
        }
        _ => {
            s.kind = "balls";
            let n = 1 + r.below(3);
            for _ in 0..n {
                let c = rnd_pt(r, size);
                let rad = size * r.logu(0.02, 0.5);
                let before = s.scene.triangles.len();
                let (f, b) = (r.below(n_mats), r.below(n_mats));
                s.scene
                    .push_object(f, b, Primitive::Sphere(Sphere3D::new(rad, pt(c))));
                for t in &s.scene.triangles[before..] {
                    s.tris
                        .push([[t[0], t[1], t[2]], [t[3], t[4], t[5]], [t[6], t[7], t[8]]]);
                    s.mats.push((f, b));
                }
            }
        }
    }
    s
}
fn tri_of(t: &Triangle) -> Tri {
    [[t[0], t[1], t[2]], [t[3], t[4], t[5]], [t[6], t[7], t[8]]]
}

fn nearest(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let mut s = rnd_soup(r);
    let n = s.tris.len();
    let kind = s.kind;
    c.desc(format!("{} of {} triangles", kind, n));
    let normals = s.scene.normals.clone();
    ensure!(
        normals.len() == n && s.scene.triangles.len() == n,
        "{} triangles became {}",
        n,
        s.scene.triangles.len()
    );
    let map = s.scene.build_accelerator();
    let sc = &s.scene;
    // nothing is lost, and everything keeps what it is made of
    ensure!(
        map.len() == n && sc.triangles.len() == n,
        "{} triangles became {}",
        n,
        sc.triangles.len()
    );
    let mut seen = vec![false; n];
    for (i, old) in map.iter().enumerate() {
        ensure!(*old < n && !seen[*old], "triangle {} is repeated", old);
        seen[*old] = true;
        ensure!(
            tri_of(&sc.triangles[i]) == s.tris[*old],
            "triangle {} is not {}, which it comes from",
            i,
            old
        );
        let m = (sc.front_material_indexes[i], sc.back_material_indexes[i]);
        ensure!(
            m == s.mats[*old],
            "the materials of triangle {} were {:?}, and became {:?}",
            old,
            s.mats[*old],
            m
        );
        ensure!(
            sc.normals[i] == normals[*old],
            "the normals of triangle {} changed",
            old
        );
    }
    c.event("triangles", n as u64);
    let tris: Vec<Tri> = sc.triangles.iter().map(tri_of).collect();
    let ext = tris
        .iter()
        .flatten()
        .flatten()
        .fold(1., |a: f64, x| a.max(x.abs()));
    let rays = if n > 5000 { 8 } else { 60 };
    for _ in 0..rays {
        let o = match r.below(4) {
            0 if n > 0 => {
                let t = r.pick(&tris);
                let (u, v) = (r.f(), r.f());
                let (u, v) = if u + v > 1. { (1. - u, 1. - v) } else { (u, v) };
                add(t[0], add(mul(sub(t[1], t[0]), u), mul(sub(t[2], t[0]), v)))
            }
            1 => [0.; 3],
            _ => rnd_pt(r, 1.2 * ext.min(300.)),
        };
        let d = match r.below(5) {
            0 => {
                let mut d = [0.; 3];
                d[r.below(3)] = if r.chance(0.5) { 1. } else { -1. };
                d
            }
            1 => {
                let a = r.below(3);
                let mut d = rnd_dir(r);
                d[a] = 0.;
                if len(d) < 1e-3 {
                    d = [1., 0., 0.];
                }
                unit(d)
            }
            2 | 3 if n > 0 => {
                let t = r.pick(&tris);
                let (u, v) = (r.f(), r.f());
                let (u, v) = if u + v > 1. { (1. - u, 1. - v) } else { (u, v) };
                let p = add(t[0], add(mul(sub(t[1], t[0]), u), mul(sub(t[2], t[0]), v)));
                if len(sub(p, o)) > 1e-3 {
                    unit(sub(p, o))
                } else {
                    rnd_dir(r)
                }
            }
            _ => rnd_dir(r),
        };
        let tol = 1e-9 * ext;
        let (mut sure, mut maybe): (Option<f64>, Vec<(usize, f64)>) = (None, vec![]);
        for (i, t) in tris.iter().enumerate() {
            let Some((k, m, cos)) = crossing(t, o, d) else {
                continue;
            };
            let err = tol / cos;
            // the closest a ray can be to an edge so that it surely crosses
            let small = {
                let l = (0..3)
                    .map(|i| len(sub(t[i], t[(i + 1) % 3])))
                    .fold(0., f64::max);
                let a = len(cross(sub(t[1], t[0]), sub(t[2], t[0])));
                a / l
            };
            let edge = 1e-9 + 10. * err / small;
            if k > 2e-3 + err && m > edge && cos > 1e-3 && small > 1e-3 {
                if sure.map(|x| k < x).unwrap_or(true) {
                    sure = Some(k);
                }
            }
            if k > -err && m > -edge {
                maybe.push((i, k));
            }
        }
        let ray = Ray3D {
            origin: pt(o),
            direction: ve(d),
        };
        let mut aux = [0; 32];
        let hit = sc.cast_ray(ray, &mut aux);
        match &hit {
            None => {
                ensure!(sure.is_none(), "a ray from {:?} towards {:?} does not see anything, but there is something at {:?}", o, d, sure);
                c.event("misses", 1);
            }
            Some((i, int)) => {
                let Some((_, k)) = maybe.iter().find(|(j, _)| j == i) else {
                    return Err(format!(
                        "a ray from {:?} towards {:?} sees a triangle ({:?}) that is not there",
                        o, d, tris[*i]
                    )
                    .into());
                };
                if let Some(x) = sure {
                    ensure!(*k <= x + 1e-6 * (1. + x), "a ray from {:?} towards {:?} sees something at {}, but there is something closer, at {}", o, d, k, x);
                }
                let t = &tris[*i];
                let n = unit(cross(sub(t[1], t[0]), sub(t[2], t[0])));
                let cos = dot(n, d);
                if cos.abs() > 1e-6 {
                    let p = fp(int.point);
                    let q = add(o, mul(d, *k));
                    ensure!(
                        len(sub(p, q)) <= 1e-6 * (1. + k) + 100. * tol / cos.abs(),
                        "the ray hits at {:?}, not at {:?}",
                        q,
                        p
                    );
                    let g = &int.geometry_shading;
                    let side = if cos < 0. {
                        SurfaceSide::Front
                    } else {
                        SurfaceSide::Back
                    };
                    ensure!(
                        g.side == side,
                        "the {:?} of the triangle was seen, not its {:?}",
                        side,
                        g.side
                    );
                    let facing = if cos < 0. { n } else { mul(n, -1.) };
                    ensure!(
                        len(sub(fv(g.normal), facing)) < 1e-6,
                        "the normal is {:?}, not {:?}",
                        facing,
                        g.normal
                    );
                    let (e1, e2) = (fv(g.dpdu), fv(g.dpdv));
                    for x in [
                        dot(e1, e1) - 1.,
                        dot(e2, e2) - 1.,
                        dot(e1, e2),
                        dot(e1, facing),
                        dot(e2, facing),
                    ] {
                        ensure!(
                            x.abs() < 1e-6,
                            "{:?} {:?} {:?} are not the axes of a surface",
                            e1,
                            e2,
                            facing
                        );
                    }
                    ensure!(
                        len(add(fv(int.wo), d)) < 1e-9,
                        "light does not leave towards where the ray came from"
                    );
                    c.event("hits", 1);
                    c.seen(&format!("{} {} {:?} {}", kind, i, side, (*k * 100.) as i64));
                }
            }
        }
        // can we see that far?
        for _ in 0..3 {
            let dist = match (&sure, r.below(3)) {
                (Some(x), 0) => x * r.range(0.2, 0.99),
                (Some(x), 1) => x * r.range(1.01, 3.),
                _ => ext * r.logu(0.01, 10.),
            };
            let free = sc.unobstructed_distance(ray, dist * dist, &mut aux);
            if let Some(x) = sure {
                if dist * dist - x * x > 1e-3 {
                    ensure!(!free, "a ray from {:?} towards {:?} is said to be free up to {}, but there is something at {}", o, d, dist, x);
                    c.event("obstructed", 1);
                }
            }
            if maybe
                .iter()
                .all(|(_, k)| *k > dist + 1e-6 * (1. + dist) + 100. * tol)
            {
                ensure!(free, "a ray from {:?} towards {:?} is said to be obstructed before {}, but there is nothing", o, d, dist);
                c.event("free", 1);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- materials
use geometry::intersection::IntersectionInfo;
use rendering::interaction::Interaction;
use rendering::material::{Dielectric, Glass, Metal, Mirror, Plastic};
use rendering::rand::{get_rng, RandGen};

fn insist(c: &mut Case, f: fn(&mut Case) -> R) -> R {
    let rng = c.rng.clone();
    for _ in 0..3 {
        match f(c) {
            Err(Fail::Bad(_)) => c.event("insisted", 1),
            x => return x,
        }
        c.rng = rng.clone();
    }
    f(c)
}

fn rnd_colour(r: &mut Rng, max: f64) -> Spectrum {
    match r.below(5) {
        0 => Spectrum::gray(r.range(0., max)),
        1 => Spectrum::gray(max),
        2 => Spectrum([max, 0., r.range(0., max)]),
        _ => Spectrum([r.range(0., max), r.range(0., max), r.range(0., max)]),
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Diffuse,
    Plastic,
    Metal,
    Mirror,
    Glass,
    Dielectric,
}
fn rnd_material(r: &mut Rng) -> (Kind, Material, f64) {
    let colour = rnd_colour(r, 1.);
    let specularity = match r.below(4) {
        0 => 0.,
        1 => 1.,
        _ => r.f(),
    };
    let roughness = match r.below(4) {
        0 => r.range(0.05, 0.5),
        _ => r.range(0.05, 0.3),
    };
    let n = match r.below(5) {
        0 => 1.52,
        1 => 1.,
        _ => r.range(1.01, 2.5),
    };
    match r.below(6) {
        0 => (Kind::Diffuse, Material::Diffuse(Diffuse { colour }), 0.),
        1 => (
            Kind::Plastic,
            Material::Plastic(Plastic {
                colour,
                specularity,
                roughness,
            }),
            specularity,
        ),
        2 => (
            Kind::Metal,
            Material::Metal(Metal {
                colour,
                specularity,
                roughness,
            }),
            specularity,
        ),
        3 => (Kind::Mirror, Material::Mirror(Mirror(colour)), 0.),
        4 => (
            Kind::Glass,
            Material::Glass(Glass {
                colour,
                refraction_index: n.max(1.01),
            }),
            n.max(1.01),
        ),
        _ => (
            Kind::Dielectric,
            Material::Dielectric(Dielectric {
                colour,
                refraction_index: n.max(1.01),
            }),
            n.max(1.01),
        ),
    }
}
/// the transmittance and reflectance of a pane of a dielectric which absorbs
/// some of the light that goes through it
fn pane(n: f64, tn: f64, cos1: f64) -> (f64, f64) {
    let cos2 = (1. - (1. - cos1 * cos1) / (n * n)).sqrt();
    let a = if tn > 0. { tn.powf(1. / cos2) } else { 0. };
    let rs = ((cos1 - n * cos2) / (cos1 + n * cos2)).powi(2);
    let rp = ((n * cos1 - cos2) / (n * cos1 + cos2)).powi(2);
    let (mut t, mut rr) = (0., 0.);
    for f in [rs, rp] {
        t += 0.5 * (1. - f).powi(2) * a / (1. - f * f * a * a);
        rr += 0.5 * (f + (1. - f).powi(2) * f * a * a / (1. - f * f * a * a));
    }
    (t, rr)
}
struct Frame {
    n: V,
    e1: V,
    e2: V,
}
fn rnd_frame(r: &mut Rng) -> Frame {
    let n = rnd_dir(r);
    let p = perp(n);
    let q = cross(n, p);
    let a = r.range(0., 6.3);
    let e1 = add(mul(p, a.cos()), mul(q, a.sin()));
    Frame {
        n,
        e1,
        e2: cross(n, e1),
    }
}
fn meet(f: &Frame, o: V, d: V, side: SurfaceSide) -> Interaction {
    Interaction {
        point: pt(o),
        wo: ve(mul(d, -1.)),
        geometry_shading: IntersectionInfo {
            p: pt(o),
            normal: ve(f.n),
            side,
            dpdu: ve(f.e1),
            dpdv: ve(f.e2),
        },
    }
}
/// where light comes from to leave towards the ray, whatever the material
fn scattering(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let (kind, m, par) = rnd_material(r);
    let f = rnd_frame(r);
    let cos = *r.pick(&[1., 0.99, 0.9, 0.7, 0.5, 0.3, 0.15]);
    let a = r.range(0., 6.3);
    let sin = (1. - cos * cos as f64).max(0.).sqrt();
    let l = [sin * a.cos(), sin * a.sin(), cos];
    // towards the viewer, and the direction of the ray
    let wo = add(add(mul(f.e1, l[0]), mul(f.e2, l[1])), mul(f.n, l[2]));
    let d = mul(wo, -1.);
    let o = rnd_pt(r, 50.);
    let back = kind == Kind::Dielectric && r.chance(0.5);
    let side = if back {
        SurfaceSide::Back
    } else {
        SurfaceSide::Front
    };
    c.desc(format!("{:?} at {:?}, cosine {}", m, side, cos));
    let n = 6000;
    let mut rng: RandGen = get_rng();
    let (mut sum, mut sq) = ([0.; 3], [0.; 3]);
    let (mut refl, mut trans) = (0u64, 0u64);
    let smooth = matches!(kind, Kind::Diffuse | Kind::Plastic | Kind::Metal);
    for _ in 0..n {
        let mut it = meet(&f, o, d, side);
        let mut eta = if back { par } else { 1. };
        let eta0 = eta;
        let Some(s) = m.sample_bsdf(ve(d), &mut it, &mut eta, &mut rng) else {
            continue;
        };
        let wi = fv(s.wi);
        if s.spectrum.0 == [0.; 3] {
            continue;
        }
        ensure!(
            (len(wi) - 1.).abs() < 1e-6,
            "a direction is {} long",
            len(wi)
        );
        ensure!(
            s.pdf > 0. && s.pdf.is_finite(),
            "a direction was chosen with a probability of {}",
            s.pdf
        );
        let ci = dot(wi, f.n);
        let up = s.is_reflection();
        ensure!(
            up != s.is_transmission(),
            "light is reflected and transmitted"
        );
        ensure!(
            if up { ci > -1e-9 } else { ci < 1e-9 },
            "{} light comes from {:?} (cosine {})",
            if up { "reflected" } else { "transmitted" },
            wi,
            ci
        );
        // the next ray starts at the side it goes to
        let off = dot(sub(fp(it.point), o), f.n);
        ensure!(
            off.abs() < 1e-3 && (off > 0.) == up,
            "the ray continues {} from the surface, but was {}",
            off,
            if up { "reflected" } else { "transmitted" }
        );
        match kind {
            Kind::Mirror | Kind::Glass | Kind::Dielectric => {
                ensure!(s.is_specular(), "not specular");
                let exp = if up {
                    add(d, mul(f.n, 2. * cos))
                } else if kind == Kind::Glass {
                    d
                } else {
                    let q = if back { par } else { 1. / par };
                    let s2 = q * q * (1. - cos * cos);
                    ensure!(
                        s2 <= 1. + 1e-9,
                        "light was transmitted beyond the critical angle"
                    );
                    add(mul(d, q), mul(f.n, q * cos - (1. - s2).max(0.).sqrt()))
                };
                ensure!(
                    len(sub(exp, wi)) < 1e-5,
                    "light comes from {:?}, instead of {:?}",
                    wi,
                    exp
                );
                let exp = match (kind, up, back) {
                    (Kind::Dielectric, false, false) => par,
                    (Kind::Dielectric, false, true) => 1.,
                    _ => eta0,
                };
                ensure!(
                    (eta - exp).abs() < 1e-9,
                    "the refraction index after being {} is {}, not {}",
                    if up { "reflected" } else { "transmitted" },
                    eta,
                    exp
                );
            }
            _ => ensure!(up, "opaque things transmit"),
        }
        if up {
            refl += 1;
        } else {
            trans += 1;
        }
        for k in 0..3 {
            let w = s.spectrum.0[k] * ci.abs() / s.pdf;
            ensure!(w >= 0. && w.is_finite(), "a weight is {}", w);
            sum[k] += w;
            sq[k] += w * w;
        }
    }
    c.event("reflected", refl);
    c.event("transmitted", trans);
    let n = n as f64;
    let rho = |k: usize| sum[k] / n;
    let err = |k: usize| 6. * ((sq[k] / n - rho(k) * rho(k)).max(0.) / n).sqrt() + 2e-3;
    let colour = m.colour();
    for k in 0..3 {
        let (got, e, col) = (rho(k), err(k), colour.0[k]);
        match kind {
            Kind::Diffuse | Kind::Mirror => ensure!(
                (got - col).abs() < e,
                "{} is reflected instead of {}",
                got,
                col
            ),
            Kind::Glass => {
                let (t, rr) = pane(par, col, cos);
                ensure!(
                    (got - t - rr).abs() < e + 1e-6,
                    "{} is reflected and transmitted, instead of {} and {}",
                    got,
                    rr,
                    t
                );
            }
            Kind::Dielectric => {}
            _ => {
                ensure!(got <= 1. + e, "{} is reflected", got);
                let q = if kind == Kind::Metal { col } else { 1. };
                ensure!(
                    got <= (1. - par) * col + par * q + e,
                    "{} is reflected, but it has {} and {} of {}",
                    got,
                    par,
                    q,
                    col
                );
            }
        }
    }
    if smooth {
        // the same, going through every direction
        // (narrow lobes, seen at grazing angles, are narrower)
        let narrow = match &m {
            Material::Plastic(p) => p.roughness * cos,
            Material::Metal(p) => p.roughness * cos,
            _ => 1.,
        };
        let (nt, np) = (600, ((5. / narrow) as usize).clamp(240, 1440));
        let (mut tot, mut prob) = ([0.; 3], 0.);
        for i in 0..nt {
            // finer close to the mirror direction is not needed for this roughness
            let z2 = (i as f64 + 0.5) / nt as f64;
            let z = z2.sqrt();
            let s = (1. - z2).sqrt();
            for j in 0..np {
                let a = (j as f64 + 0.5) / np as f64 * std::f64::consts::TAU;
                let wi = add(
                    add(mul(f.e1, s * a.cos()), mul(f.e2, s * a.sin())),
                    mul(f.n, z),
                );
                let v = m.eval_bsdf(ve(f.n), ve(f.e1), ve(f.e2), ve(wo), ve(wi), 1.);
                for k in 0..3 {
                    ensure!(
                        v.0[k] >= 0. && v.0[k].is_finite(),
                        "a reflectance is {}",
                        v.0[k]
                    );
                    tot[k] += v.0[k] * std::f64::consts::PI / (nt * np) as f64;
                }
                let p = m.pdf(ve(f.n), ve(f.e1), ve(f.e2), ve(wo), ve(wi), 1.);
                ensure!(p >= 0. && p.is_finite(), "a probability is {}", p);
                prob += p * std::f64::consts::PI / z / (nt * np) as f64;
            }
        }
        for k in 0..3 {
            ensure!(
                (tot[k] - rho(k)).abs() < err(k) + 0.01,
                "{} is reflected by tracing rays, but {} by evaluating every direction",
                rho(k),
                tot[k]
            );
        }
        ensure!(
            prob < 1.02,
            "the probabilities of every direction add up to {}",
            prob
        );
        if kind == Kind::Diffuse || par == 0. {
            ensure!(
                prob > 0.98,
                "the probabilities of every direction add up to {}",
                prob
            );
        }
        c.event("integrated", 1);
        // reciprocity
        for _ in 0..20 {
            let mut wi = rnd_dir(r);
            if dot(wi, f.n) < 0. {
                wi = mul(wi, -1.);
            }
            let ev = |a: V, b: V| m.eval_bsdf(ve(f.n), ve(f.e1), ve(f.e2), ve(a), ve(b), 1.);
            let (x, y) = (ev(wo, wi), ev(wi, wo));
            for k in 0..3 {
                ensure!(
                    (x.0[k] - y.0[k]).abs() < 1e-6 * (1. + x.0[k]),
                    "{} goes from {:?} to {:?}, but {} the other way",
                    x.0[k],
                    wi,
                    wo,
                    y.0[k]
                );
            }
            let x = ev(wo, mul(wi, -1.));
            ensure!(x.0 == [0.; 3], "opaque things transmit {:?}", x);
        }
    }
    c.seen(&format!("{:?} {} {:?}", kind, cos, (rho(0) * 1000.) as i64));
    Ok(())
}
fn scattering_(c: &mut Case) -> R {
    insist(c, scattering)
}

// ---------------------------------------------------------------- sampling
use rendering::primitive_samplers as ps;
use rendering::samplers as sp;
use std::f64::consts::{PI, TAU};

/// counts in cells that should be equally likely
fn even(name: &str, n: &[u64]) -> R {
    let tot: u64 = n.iter().sum();
    let e = tot as f64 / n.len() as f64;
    let chi: f64 = n.iter().map(|x| (*x as f64 - e).powi(2) / e).sum();
    let df = n.len() as f64 - 1.;
    ensure!(
        chi < df + 7. * (2. * df).sqrt() + 20.,
        "{}: cells which should be equally likely got {:?} (chi2 = {:.1}, {} degrees of freedom)",
        name,
        n,
        chi,
        df
    );
    Ok(())
}
fn cell(x: f64, n: usize) -> usize {
    ((x * n as f64) as usize).min(n - 1)
}
fn angle_of(x: f64, y: f64) -> f64 {
    let a = y.atan2(x) / TAU;
    if a < 0. {
        a + 1.
    } else {
        a
    }
}
fn rnd_u(r: &mut Rng) -> (f64, f64) {
    let mut one = || match r.below(400) {
        0 => 0.,
        1 => 1. - 1e-16,
        _ => r.f(),
    };
    (one(), one())
}
fn samplers(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let n = 20000;
    let which = r.below(8);
    let mut cells = vec![0u64; 64];
    let f = rnd_frame(r);
    let cen = rnd_pt(r, 30.);
    let rad = r.logu(0.01, 50.);
    let t: Tri = [rnd_pt(r, 10.), rnd_pt(r, 10.), rnd_pt(r, 10.)];
    let nm = cross(sub(t[1], t[0]), sub(t[2], t[0]));
    if len(nm) < 0.1 {
        return Ok(());
    }
    let names = [
        "triangle",
        "disc",
        "cosine-weighted hemisphere",
        "hemisphere",
        "tilted hemisphere",
        "sphere",
        "tilted disc",
        "triangle surface",
    ];
    c.desc(format!("{} {:?} {:?} {}", names[which], t, f.n, rad));
    let mut rng = get_rng();
    let tri = Triangle3D::new(pt(t[0]), pt(t[1]), pt(t[2]))?;
    for _ in 0..n {
        let u = rnd_u(r);
        let (a, b) = match which {
            0 | 7 => {
                let p = if which == 0 {
                    fp(sp::uniform_sample_triangle(u, pt(t[0]), pt(t[1]), pt(t[2])))
                } else {
                    fp(ps::sample_triangle_surface(&tri, &mut rng))
                };
                let w = |i: usize| {
                    dot(cross(sub(t[(i + 1) % 3], t[i]), sub(p, t[i])), nm) / dot(nm, nm)
                };
                let (x, y, z) = (w(1), w(2), w(0));
                ensure!(
                    x > -1e-6 && y > -1e-6 && z > -1e-6,
                    "{:?} is not in {:?}",
                    p,
                    t
                );
                ensure!(
                    dot(sub(p, t[0]), nm).abs() < 1e-6 * len(nm),
                    "{:?} is not in the plane of {:?}",
                    p,
                    t
                );
                // the square of the distance to a corner, and the position along the other direction
                let s = (1. - x).max(0.);
                (s * s, if s > 0. { y / s } else { 0. })
            }
            1 => {
                let (x, y) = sp::uniform_sample_horizontal_disc(u, rad);
                ((x * x + y * y) / rad / rad, angle_of(x, y))
            }
            2 => {
                let v = sp::sample_cosine_weighted_horizontal_hemisphere(u);
                ensure!(
                    (v.length() - 1.).abs() < 1e-6 && v.z >= 0.,
                    "{:?} is not in the hemisphere",
                    v
                );
                (v.z * v.z, angle_of(v.x, v.y))
            }
            3 => {
                let v = sp::sample_uniform_hemisphere(u);
                ensure!(
                    (v.length() - 1.).abs() < 1e-6 && v.z >= 0.,
                    "{:?} is not in the hemisphere",
                    v
                );
                (v.z, angle_of(v.x, v.y))
            }
            4 => {
                let v = fv(sp::uniform_sample_tilted_hemisphere(
                    u,
                    ve(f.e1),
                    ve(f.e2),
                    ve(f.n),
                ));
                ensure!(
                    (len(v) - 1.).abs() < 1e-6 && dot(v, f.n) > -1e-9,
                    "{:?} is not in the hemisphere of {:?}",
                    v,
                    f.n
                );
                (dot(v, f.n), angle_of(dot(v, f.e1), dot(v, f.e2)))
            }
            5 => {
                let v = fp(sp::uniform_sample_sphere(u));
                ensure!((len(v) - 1.).abs() < 1e-6, "{:?} is not in the sphere", v);
                (
                    (1. + dot(v, f.n)) / 2.,
                    angle_of(dot(v, f.e1), dot(v, f.e2)),
                )
            }
            _ => {
                let v = sub(
                    fp(sp::uniform_sample_tilted_disc(u, rad, pt(cen), ve(f.n))),
                    cen,
                );
                ensure!(
                    dot(v, f.n).abs() < 1e-6 * (1. + rad),
                    "{:?} is not in the disc",
                    v
                );
                (dot(v, v) / rad / rad, angle_of(dot(v, f.e1), dot(v, f.e2)))
            }
        };
        ensure!(
            (-1e-6..=1. + 1e-6).contains(&a) && a.is_finite() && b.is_finite(),
            "a sample is out of the {}",
            names[which]
        );
        cells[cell(a, 8) * 8 + cell(b, 8)] += 1;
    }
    even(names[which], &cells)?;
    c.event("samples", n);
    c.seen(&format!("{} {:?}", which, cells));
    Ok(())
}
fn samplers_(c: &mut Case) -> R {
    insist(c, samplers)
}
/// integral of directions over the solid angle of a triangle (Lambert)
fn lambert(t: &Tri, o: V) -> V {
    let d: Vec<V> = t.iter().map(|p| unit(sub(*p, o))).collect();
    let mut s = [0.; 3];
    for i in 0..3 {
        let (a, b) = (d[i], d[(i + 1) % 3]);
        let g = cross(a, b);
        let l = len(g);
        if l > 1e-12 {
            s = add(s, mul(g, 0.5 * l.atan2(dot(a, b)) / l));
        }
    }
    s
}
fn solid_angle(t: &Tri, o: V) -> f64 {
    let d: Vec<V> = t.iter().map(|p| unit(sub(*p, o))).collect();
    let num = dot(d[0], cross(d[1], d[2])).abs();
    let den = 1. + dot(d[0], d[1]) + dot(d[1], d[2]) + dot(d[2], d[0]);
    2. * num.atan2(den)
}
/// lights are aimed at with the probabilities that are declared
fn aiming(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let o = rnd_pt(r, 100.);
    let which = r.below(3);
    let (prim, omega, vector) = match which {
        0 => {
            let k = r.logu(0.1, 10.);
            let cen = add(o, mul(rnd_dir(r), k * r.range(1., 5.)));
            let t: Tri = [
                add(cen, rnd_pt(r, k)),
                add(cen, rnd_pt(r, k)),
                add(cen, rnd_pt(r, k)),
            ];
            let n = cross(sub(t[1], t[0]), sub(t[2], t[0]));
            let h = dot(unit(n), sub(o, t[0])).abs();
            if len(n) < 0.05 * k * k || h < 0.3 * k {
                return Ok(());
            }
            let mut v = lambert(&t, o);
            if dot(v, sub(cen, o)) < 0. {
                v = mul(v, -1.);
            }
            (
                Primitive::Triangle(Triangle3D::new(pt(t[0]), pt(t[1]), pt(t[2]))?),
                solid_angle(&t, o),
                v,
            )
        }
        1 => {
            let k = r.logu(0.05, 10.);
            let d = k * r.range(1.2, 20.);
            let dir = rnd_dir(r);
            let s2 = (k / d).powi(2);
            (
                Primitive::Sphere(Sphere3D::new(k, pt(add(o, mul(dir, d))))),
                TAU * (1. - (1. - s2).sqrt()),
                mul(dir, PI * s2),
            )
        }
        _ => {
            let dir = rnd_dir(r);
            let angle = r.logu(0.2, 8.).to_radians();
            let s = geometry::DistantSource3D::new(ve(mul(dir, r.range(0.5, 2.))), angle);
            (
                Primitive::Source(s),
                TAU * (1. - (angle / 2.).cos()),
                mul(dir, PI * (angle / 2.).sin().powi(2)),
            )
        }
    };
    c.desc(format!("{} from {:?}: {:?}", prim.id(), o, prim));
    let n = 4000;
    let mut rng = get_rng();
    let (mut sum, mut sq, mut mom, mut hits) = (0., 0., [0.; 3], 0u64);
    for _ in 0..n {
        let d = prim.sample_direction(&mut rng, pt(o));
        ensure!(
            (d.length() - 1.).abs() < 1e-6,
            "the direction is {} long",
            d.length()
        );
        let ray = Ray3D {
            origin: pt(o),
            direction: d,
        };
        // one aimed at its very edge may miss
        let Some(info) = prim.intersect(&ray) else {
            continue;
        };
        hits += 1;
        let p = prim.solid_angle_pdf(&info, &ray);
        ensure!(
            p > 0. && p.is_finite(),
            "a direction that was sampled has a probability of {}",
            p
        );
        sum += 1. / p;
        sq += 1. / p / p;
        mom = add(mom, mul(fv(d), 1. / p));
    }
    ensure!(
        hits * 100 > n * 97,
        "{} of {} directions that aim at the light miss it",
        n - hits,
        n
    );
    let nf = n as f64;
    let err = 6. * ((sq / nf - (sum / nf).powi(2)).max(0.) / nf).sqrt() + 0.03 * omega;
    ensure!(
        (sum / nf - omega).abs() < err,
        "the light covers {} sr, but sampling it gives {}",
        omega,
        sum / nf
    );
    ensure!(
        len(sub(mul(mom, 1. / nf), vector)) < err + 0.03 * len(vector),
        "sampling the light gives a total direction of {:?}, not {:?}",
        mul(mom, 1. / nf),
        vector
    );
    if which == 1 {
        // spread evenly over what is seen
        let Primitive::Sphere(s) = &prim else {
            incon!("no sphere")
        };
        let to = sub(fp(s.centre()), o);
        let cmax = (1. - (s.radius / len(to)).powi(2)).sqrt();
        let ax = unit(to);
        let (e1, e2) = (perp(ax), cross(ax, perp(ax)));
        let mut cells = vec![0u64; 36];
        for _ in 0..8000 {
            let d = fv(prim.sample_direction(&mut rng, pt(o)));
            cells[cell((1. - dot(d, ax)) / (1. - cmax), 6) * 6
                + cell(angle_of(dot(d, e1), dot(d, e2)), 6)] += 1;
        }
        even("the light", &cells)?;
    }
    let (dist, d) = prim.direction(pt(o));
    let ray = Ray3D {
        origin: pt(o),
        direction: d,
    };
    let info = prim.intersect(&ray);
    ensure!(info.is_some(), "the direction of the light misses it");
    if let (Some(i), true) = (info, which < 2) {
        let l = (i.p - pt(o)).length();
        ensure!(
            (l - dist).abs() < 1e-6 * (1. + l),
            "the light is said to be at {}, but is at {}",
            dist,
            l
        );
    }
    c.event(["triangles", "spheres", "distant"][which], 1);
    c.seen(&format!("{} {:?}", which, (omega * 1e4) as i64));
    Ok(())
}
fn aiming_(c: &mut Case) -> R {
    insist(c, aiming)
}

// ---------------------------------------------------------------- images and matrices
use rendering::colour_matrix as cm;
use rendering::image::ImageBuffer;
use rendering::ColourMatrix;
use std::path::Path;

fn rnd_val(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.,
        1 => 1.,
        2 => 2f64.powi(r.int(-20, 20) as i32),
        3 => 2f64.powi(r.int(-20, 20) as i32) * (1. - 1e-15),
        4 => r.logu(1e-15, 1e30),
        _ => r.logu(1e-4, 1e5),
    }
}
fn images(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let (w, h) = (1 + r.below(40), 1 + r.below(40));
    c.desc(format!("{} x {}", w, h));
    let mut img = ImageBuffer::new(w, h);
    let mut all = vec![];
    for y in 0..h {
        for x in 0..w {
            let k = rnd_val(r);
            let v = match r.below(3) {
                0 => Spectrum::gray(k),
                1 => Spectrum([k, k * r.f(), k * r.logu(1e-4, 1.)]),
                _ => Spectrum([rnd_val(r), rnd_val(r), rnd_val(r)]),
            };
            img[(x, y)] = v;
            all.push(v);
        }
    }
    ensure!(img.pixels == all, "the pixels of an image are not those that were set");
    let same = ImageBuffer::from_pixels(w, h, all.clone());
    ensure!((same.width, same.height) == (w, h) && same.pixels == all, "an image is not made of its pixels");
    let path = scratch(".hdr");
    img.save_hdre(Path::new(&path))?;
    let got = ImageBuffer::from_file(Path::new(&path))?;
    ensure!(
        (got.width, got.height) == (w, h) && got.pixels.len() == w * h,
        "an image of {} x {} came back as {} x {} ({} pixels)",
        w,
        h,
        got.width,
        got.height,
        got.pixels.len()
    );
    for y in 0..h {
        for x in 0..w {
            let (a, b) = (all[y * w + x].0, got.pixels[y * w + x].0);
            ensure!(img[(x, y)].0 == a && got[(x, y)].0 == b, "pixel ({}, {}) is {:?}, not {:?}", x, y, img[(x, y)], a);
            let m = a[0].max(a[1]).max(a[2]);
            for k in 0..3 {
                ensure!(
                    (a[k] - b[k]).abs() <= m / 127. + 1e-18,
                    "pixel ({}, {}) was {:?} and came back as {:?}",
                    x,
                    y,
                    a,
                    b
                );
            }
        }
    }
    c.event("pixels", (w * h) as u64);
    let d = img.diff(&got)?;
    for i in 0..w * h {
        let e = (img.pixels[i].radiance() - got.pixels[i].radiance()).abs();
        ensure!(
            (d.pixels[i].radiance() - e).abs() <= 1e-9 * e,
            "the difference between pixels is {}, not {}",
            d.pixels[i].radiance(),
            e
        );
    }
    let other = ImageBuffer::new(w + 1, h);
    ensure!(
        img.diff(&other).is_err(),
        "images of different sizes were compared"
    );
    // damaged files
    let bytes = std::fs::read(&path).map_err(|e| Fail::Inconclusive(e.to_string()))?;
    for _ in 0..10 {
        let mut b = bytes.clone();
        let cut = r.chance(0.5);
        if cut {
            b.truncate(r.below(b.len()));
        } else {
            for _ in 0..1 + r.below(3) {
                let i = r.below(60.min(b.len()));
                b[i] = *r.pick(&[b'0', b'9', b' ', b'\n', b'-', b'X', 0xff, 0, b'=']);
            }
        }
        std::fs::write(&path, &b).map_err(|e| Fail::Inconclusive(e.to_string()))?;
        match guarded(|| ImageBuffer::from_file(Path::new(&path))) {
            Err(e) => {
                return Err(format!("a damaged image file makes the reader panic: {}", e).into())
            }
            Ok(Err(_)) => c.event("refused", 1),
            Ok(Ok(i)) => {
                ensure!(
                    !cut,
                    "an image file that was cut was read ({} x {}, {} pixels)",
                    i.width,
                    i.height,
                    i.pixels.len()
                );
                ensure!(
                    i.pixels.len() == i.width * i.height,
                    "an image of {} x {} has {} pixels",
                    i.width,
                    i.height,
                    i.pixels.len()
                );
            }
        }
    }
    let _ = std::fs::remove_file(&path);
    c.seen(&format!("{} {} {:?}", w, h, img.pixels[0]));
    Ok(())
}
fn matrices(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let (n, m) = (1 + r.below(12), 1 + r.below(20));
    c.desc(format!("{} x {}", n, m));
    let path = scratch(".mtx");
    let p = Path::new(&path);
    let val = |r: &mut Rng| {
        let v = rnd_val(r);
        if r.chance(0.2) {
            -v
        } else {
            v
        }
    };
    let colour = r.chance(0.5);
    let mut cmx = ColourMatrix::new(Spectrum::BLACK, n, m);
    let mut mx = matrix::Matrix::new(0., n, m);
    for i in 0..n {
        for j in 0..m {
            cmx.set(i, j, Spectrum([val(r), val(r), val(r)]))?;
            mx.set(i, j, val(r))?;
        }
    }
    let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * a.abs();
    if colour {
        cm::save_colour_matrix(&cmx, p)?;
        let got = cm::read_colour_matrix(p)?;
        ensure!(
            got.size() == (n, m),
            "a matrix of {} x {} came back as {:?}",
            n,
            m,
            got.size()
        );
        let (rad, lum) = (
            cm::colour_matrix_to_radiance(&cmx),
            cm::colour_matrix_to_luminance(&cmx),
        );
        for i in 0..n {
            for j in 0..m {
                let (a, b) = (cmx.get(i, j)?, got.get(i, j)?);
                for k in 0..3 {
                    ensure!(
                        close(a.0[k], b.0[k]),
                        "element ({}, {}) was {:?} and came back as {:?}",
                        i,
                        j,
                        a,
                        b
                    );
                }
                let e = 0.265 * a.0[0] + 0.67 * a.0[1] + 0.065 * a.0[2];
                let tol = 1e-9 * a.0.iter().map(|x| x.abs()).sum::<f64>();
                ensure!(
                    (rad.get(i, j)? - e).abs() <= tol
                        && (lum.get(i, j)? - 179. * e).abs() <= 179. * tol,
                    "the radiance of {:?} is {}, and its luminance {}",
                    a,
                    rad.get(i, j)?,
                    lum.get(i, j)?
                );
            }
        }
        ensure!(
            cm::read_matrix(p).is_err(),
            "a matrix of colours was read as one of numbers"
        );
    } else {
        cm::save_matrix(&mx, p)?;
        let got = cm::read_matrix(p)?;
        ensure!(
            got.size() == (n, m),
            "a matrix of {} x {} came back as {:?}",
            n,
            m,
            got.size()
        );
        let av = cm::average_matrix(&mx);
        ensure!(av.size() == (1, m), "the average is {:?}", av.size());
        for j in 0..m {
            let (mut s, mut sa) = (0., 0.);
            for i in 0..n {
                let (a, b) = (mx.get(i, j)?, got.get(i, j)?);
                ensure!(
                    close(a, b),
                    "element ({}, {}) was {} and came back as {}",
                    i,
                    j,
                    a,
                    b
                );
                s += a;
                sa += a.abs();
            }
            ensure!(
                (av.get(0, j)? - s / n as f64).abs() <= 1e-9 * sa,
                "the average of a column is {}, not {}",
                av.get(0, j)?,
                s / n as f64
            );
        }
        ensure!(
            cm::read_colour_matrix(p).is_err(),
            "a matrix of numbers was read as one of colours"
        );
    }
    c.event("matrices", 1);
    // damaged files
    let text = std::fs::read_to_string(p).map_err(|e| Fail::Inconclusive(e.to_string()))?;
    for _ in 0..8 {
        let lines: Vec<&str> = text.lines().collect();
        let mut l: Vec<String> = lines.iter().map(|x| x.to_string()).collect();
        let what = r.below(6);
        let data = lines.len() - n;
        let must = match what {
            0 => {
                l.truncate(data + r.below(n));
                true
            }
            1 => {
                let i = data + r.below(n);
                l[i] = l[i]
                    .rsplit_once('\t')
                    .map(|x| x.0.rsplit_once('\t').map(|x| x.0).unwrap_or(""))
                    .unwrap_or("")
                    .to_string();
                true
            }
            2 => {
                let i = data + r.below(n);
                l.insert(i, lines[i].to_string());
                true
            }
            3 => {
                let i = data + r.below(n);
                l[i] = format!("x{}", l[i]);
                true
            }
            4 => {
                let i = 1 + r.below(2);
                l.remove(i);
                true
            }
            _ => {
                let i = r.below(l.len());
                l[i] = wea_mutate(&l[i], r);
                false
            }
        };
        let bad = l.join("\n");
        std::fs::write(p, bad.as_bytes()).map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let got = guarded(|| {
            if colour {
                cm::read_colour_matrix(p).map(|x| x.size())
            } else {
                cm::read_matrix(p).map(|x| x.size())
            }
        });
        match got {
            Err(e) => {
                return Err(format!(
                    "a damaged matrix file ({}) makes the reader panic: {}",
                    bad.chars().take(200).collect::<String>(),
                    e
                )
                .into())
            }
            Ok(Err(_)) => c.event("refused", 1),
            Ok(Ok(s)) => ensure!(
                !must,
                "a matrix file of {} x {} that was damaged ({}) was read ({:?})",
                n,
                m,
                [
                    "cut",
                    "missing values",
                    "repeated line",
                    "not a number",
                    "no size",
                    ""
                ][what],
                s
            ),
        }
    }
    let _ = std::fs::remove_file(&path);
    c.seen(&format!("{} {} {} {:?}", colour, n, m, mx.get(0, 0)?));
    Ok(())
}
fn wea_mutate(s: &str, r: &mut Rng) -> String {
    let mut b = s.as_bytes().to_vec();
    if b.is_empty() {
        return "7".into();
    }
    let i = r.below(b.len());
    match r.below(3) {
        0 => {
            b.remove(i);
        }
        1 => b.insert(i, *r.pick(&[b'9', b'-', b' ', b'=', b'e'])),
        _ => b[i] = *r.pick(&[b'9', b'-', b' ', b'=', b'e']),
    }
    String::from_utf8_lossy(&b).into_owned()
}
fn scales(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let which = r.below(5);
    let map = [
        Colourmap::Radiance,
        Colourmap::Inferno,
        Colourmap::Magma,
        Colourmap::Plasma,
        Colourmap::Viridis,
    ]
    .into_iter()
    .nth(which)
    .unwrap();
    use rendering::colourmap as cmap;
    let table: &[[f64; 3]] = match which {
        0 => &cmap::radiance::RADIANCE_COLOURMAP,
        1 => &cmap::inferno::INFERNO_COLOURMAP,
        2 => &cmap::magma::MAGMA_COLOURMAP,
        3 => &cmap::plasma::PLASMA_COLOURMAP,
        _ => &cmap::viridis::VIRIDIS_COLOURMAP,
    };
    let min = if r.chance(0.3) {
        0.
    } else {
        r.normal() * r.logu(1e-3, 1e4)
    };
    let max = min + r.logu(1e-3, 1e6);
    c.desc(format!("scale {} from {} to {}", which, min, max));
    let n = table.len();
    for _ in 0..200 {
        let x = match r.below(8) {
            0 => min,
            1 => max,
            2 => max - (max - min) * r.logu(1e-17, 1e-12),
            3 => min + (max - min) * r.below(n) as f64 / (n - 1) as f64,
            4 => f64::NEG_INFINITY,
            5 => min + (max - min) * r.normal() * 3.,
            _ => min + (max - min) * r.f(),
        };
        let got = match guarded(|| map.map_linear(x, min, max)) {
            Ok(v) => v,
            Err(e) => {
                return Err(format!(
                    "{:?} in a scale from {:?} to {:?} panics: {}",
                    x, min, max, e
                )
                .into())
            }
        };
        let s = ((x - min) / (max - min)).clamp(0., 1.) * (n - 1) as f64;
        let i = (s as usize).min(n - 2);
        let lam = s - i as f64;
        for k in 0..3 {
            let e = table[i][k] + lam * (table[i + 1][k] - table[i][k]);
            ensure!(
                (got[k] - e).abs() < 1e-6 + 1e-12 * (min.abs() / (max - min)),
                "the colour of {} from {} to {} is {:?}",
                x,
                min,
                max,
                got
            );
            ensure!(
                (-1e-9..=1. + 1e-9).contains(&got[k]),
                "a colour is {:?}",
                got
            );
        }
        c.event("colours", 1);
        c.seen(&format!("{} {}", which, (s * 10.) as i64));
    }
    if r.chance(0.1) {
        // whole images
        let (w, h) = (1 + r.below(20), 1 + r.below(20));
        let img = ImageBuffer::from_pixels(
            w,
            h,
            (0..w * h).map(|_| Spectrum::gray(rnd_val(r))).collect(),
        );
        let path = scratch(".jpg");
        for log in [true, false] {
            let (a, b) = (
                if r.chance(0.5) { Some(r.f()) } else { None },
                if r.chance(0.5) {
                    Some(r.range(2., 1e4))
                } else {
                    None
                },
            );
            let mk = || {
                [
                    Colourmap::Radiance,
                    Colourmap::Inferno,
                    Colourmap::Magma,
                    Colourmap::Plasma,
                    Colourmap::Viridis,
                ]
                .into_iter()
                .nth(which)
                .unwrap()
            };
            let res = guarded(|| {
                if log {
                    img.save_log_falsecolour(a, b, mk(), Path::new(&path))
                } else {
                    img.save_falsecolour(a, b, mk(), Path::new(&path))
                }
            });
            match res {
                Err(e) => {
                    return Err(format!("writing an image in false colour panics: {}", e).into())
                }
                Ok(x) => x?,
            }
            let b = std::fs::read(&path).map_err(|e| Fail::Inconclusive(e.to_string()))?;
            // the size is in the header of the frame
            let sof = (0..b.len().saturating_sub(9))
                .find(|i| b[*i] == 0xff && (0xc0..=0xc2).contains(&b[*i + 1]));
            let Some(i) = sof else {
                return Err("not an image".into());
            };
            let (hh, ww) = (
                b[i + 5] as usize * 256 + b[i + 6] as usize,
                b[i + 7] as usize * 256 + b[i + 8] as usize,
            );
            ensure!(
                (ww, hh) == (w, h),
                "an image of {} x {} was written as one of {} x {}",
                w,
                h,
                ww,
                hh
            );
            c.event("false colour", 1);
        }
        let _ = std::fs::remove_file(&path);
    }
    Ok(())
}

// ---------------------------------------------------------------- cameras
use rendering::{Camera, CameraSample, Film, Pinhole, View};
fn cameras(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let o = rnd_pt(r, 100.);
    let dir = rnd_dir(r);
    let mut up = rnd_dir(r);
    if len(cross(dir, up)) < 0.1 {
        up = perp(dir);
    }
    let fov = r.range(2., 150.);
    let (w, h) = match r.below(3) {
        0 => {
            let n = 1 + r.below(600);
            (n, n)
        }
        _ => (1 + r.below(600), 1 + r.below(600)),
    };
    c.desc(format!(
        "{} x {} at {:?} towards {:?}, up {:?}, field of view {}",
        w, h, o, dir, up, fov
    ));
    let right = unit(cross(dir, up));
    let top = cross(right, dir);
    let view = View {
        view_point: pt(o),
        view_direction: ve(mul(dir, r.logu(0.1, 10.))),
        view_up: ve(mul(up, r.logu(0.1, 10.))),
        field_of_view: fov,
    };
    let cam = Pinhole::new(view, Film { resolution: (w, h) });
    ensure!(cam.film_resolution() == (w, h), "the film changed");
    let k = (fov.to_radians() / 2.).tan();
    for i in 0..60 {
        let (x, y) = match i {
            0 => (0, 0),
            1 => (w - 1, h - 1),
            2 => (0, h - 1),
            _ => (r.below(w), r.below(h)),
        };
        let (ray, wt) = cam.gen_ray(&CameraSample { p_film: (x, y) });
        ensure!(wt == 1., "the ray of a pixel counts {}", wt);
        ensure!(
            len(sub(fp(ray.origin), o)) < 1e-9,
            "a ray starts at {:?}",
            ray.origin
        );
        let sx = ((x as f64 + 0.5) / w as f64 * 2. - 1.) * k;
        let sy = (1. - (y as f64 + 0.5) / h as f64 * 2.) * k * h as f64 / w as f64;
        let exp = unit(add(dir, add(mul(right, sx), mul(top, sy))));
        ensure!(
            len(sub(fv(ray.direction), exp)) < 1e-6,
            "pixel ({}, {}) looks towards {:?}, not {:?}",
            x,
            y,
            ray.direction,
            exp
        );
        c.event("pixels", 1);
        c.seen(&format!("{} {} {} {}", w, h, x, y));
        // and back
        let (p, wt) = cam.pixel_from_ray(&ray);
        ensure!(
            p == (x, y) && wt == 1.,
            "the ray of pixel ({}, {}) is said to be of {:?} ({})",
            x,
            y,
            p,
            wt
        );
        // any other
        let d = if r.chance(0.5) {
            rnd_dir(r)
        } else if r.chance(0.1) {
            // (almost) along the film
            unit(add(mul(dir, r.logu(1e-14, 1e-2)), add(mul(right, r.range(-1., 1.)), mul(top, r.range(-1., 1.)))))
        } else {
            unit(add(dir, mul(rnd_dir(r), 1.5 * k)))
        };
        let (p, wt) = cam.pixel_from_ray(&Ray3D {
            origin: pt(o),
            direction: ve(d),
        });
        let f = dot(d, dir);
        let (px, py) = (
            dot(d, right) / f / k,
            dot(d, top) / f / k * w as f64 / h as f64,
        );
        let edge = px.abs().max(py.abs());
        if f < 1e-6 || edge > 1. + 1e-6 {
            ensure!(
                wt == 0.,
                "{:?} cannot be seen, but is said to be in pixel {:?}",
                d,
                p
            );
            c.event("out of sight", 1);
        } else if f > 1e-3 && edge < 1. - 1e-6 {
            let (ex, ey) = ((px + 1.) / 2. * w as f64, (1. - py) / 2. * h as f64);
            ensure!(wt == 1., "{:?} can be seen, but is said not to", d);
            ensure!(
                p.0 < w
                    && p.1 < h
                    && (p.0 as f64 + 0.5 - ex).abs() < 0.5 + 1e-6
                    && (p.1 as f64 + 0.5 - ey).abs() < 0.5 + 1e-6,
                "{:?} is seen at ({}, {}), not at pixel {:?}",
                d,
                ex,
                ey,
                p
            );
            c.event("in sight", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- tracing light
use rendering::RayTracer;

fn quad(a: V, b: V, c: V, d: V) -> [Tri; 2] {
    [[a, b, c], [a, c, d]]
}
/// the twelve triangles of a box, facing outwards
fn box_tris(lo: V, hi: V) -> Vec<Tri> {
    let p = |i: usize| {
        [
            if i & 1 > 0 { hi[0] } else { lo[0] },
            if i & 2 > 0 { hi[1] } else { lo[1] },
            if i & 4 > 0 { hi[2] } else { lo[2] },
        ]
    };
    let mut v = vec![];
    for f in [
        [0, 2, 3, 1],
        [4, 5, 7, 6],
        [0, 1, 5, 4],
        [2, 6, 7, 3],
        [0, 4, 6, 2],
        [1, 3, 7, 5],
    ] {
        v.extend(quad(p(f[0]), p(f[1]), p(f[2]), p(f[3])));
    }
    v
}
fn turn(f: &Frame, o: V, p: V) -> V {
    add(
        o,
        add(add(mul(f.e1, p[0]), mul(f.e2, p[1])), mul(f.n, p[2])),
    )
}
fn add_tri(s: &mut Scene, t: &Tri, front: usize, back: usize) -> bool {
    let Ok(tri) = Triangle3D::new(pt(t[0]), pt(t[1]), pt(t[2])) else {
        return false;
    };
    s.push_object(front, back, Primitive::Triangle(tri));
    true
}
/// under a uniform sky, what does not absorb light looks like the sky
fn furnace(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let o = rnd_pt(r, 20.);
    let f = rnd_frame(r);
    let mut s = Scene::new();
    let sky = r.logu(0.1, 100.);
    s.sky = Some(Box::new(move |_| sky));
    let tint = if r.chance(0.3) {
        Some(Spectrum([
            r.range(0.1, 2.),
            r.range(0.1, 2.),
            r.range(0.1, 2.),
        ]))
    } else {
        None
    };
    s.sky_colour = tint;
    let white = s.push_material(Material::Diffuse(Diffuse {
        colour: Spectrum::ONE,
    }));
    let mirror = s.push_material(Material::Mirror(Mirror(Spectrum::ONE)));
    let n = r.range(1.05, 2.2);
    let glass = s.push_material(Material::Glass(Glass {
        colour: Spectrum::ONE,
        refraction_index: n,
    }));
    let solid = s.push_material(Material::Dielectric(Dielectric {
        colour: Spectrum::ONE,
        refraction_index: n,
    }));
    let names = ["white", "mirror", "glass", "dielectric"];
    let mut made = String::new();
    let (mut transparent, mut refracts) = (false, false);
    for i in 0..1 + r.below(4) {
        let m = *r.pick(&[white, mirror, glass, solid]);
        // every thing in its own place
        let cen = [4. * i as f64, r.range(-1., 1.), r.range(-1., 1.)];
        let what = r.below(3);
        match what {
            0 => {
                let lo = sub(cen, [r.range(0.1, 1.), r.range(0.1, 1.), r.range(0.02, 1.)]);
                let hi = add(cen, [r.range(0.1, 1.), r.range(0.1, 1.), r.range(0.02, 1.)]);
                for t in box_tris(lo, hi) {
                    add_tri(&mut s, &t.map(|p| turn(&f, o, p)), m, m);
                }
            }
            1 => {
                s.push_object(
                    m,
                    m,
                    Primitive::Sphere(Sphere3D::new(r.range(0.2, 1.), pt(turn(&f, o, cen)))),
                );
            }
            _ => {
                if m == solid {
                    continue;
                }
                let t = [
                    add(cen, rnd_pt(r, 1.)),
                    add(cen, rnd_pt(r, 1.)),
                    add(cen, rnd_pt(r, 1.)),
                ];
                if !add_tri(&mut s, &t.map(|p| turn(&f, o, p)), m, m) {
                    continue;
                }
            }
        }
        transparent |= m == glass || m == solid;
        refracts |= m == solid;
        made += &format!("{} {}, ", names[m], ["box", "sphere", "triangle"][what]);
    }
    c.desc(format!("{}refraction {}, at {:?}", made, n, o));
    s.build_accelerator();
    let tracer = RayTracer {
        max_depth: 2000,
        n_shadow_samples: 1 + r.below(3),
        n_ambient_samples: 1,
    };
    let mut rng = get_rng();
    let mut aux = [0; 32];
    let exp = tint.unwrap_or(Spectrum::ONE);
    let mut off = 0;
    let m = if refracts { 40 } else { 150 };
    for _ in 0..m {
        let from = [r.range(-5., 18.), r.range(-8., -2.), r.range(-6., 6.)];
        let at = [r.range(-1., 14.), r.range(-1.5, 1.5), r.range(-1.5, 1.5)];
        let (from, at) = (turn(&f, o, from), turn(&f, o, at));
        let ray = Ray3D {
            origin: pt(from),
            direction: ve(unit(sub(at, from))),
        };
        let met = s.cast_ray(ray, &mut aux).is_some();
        let mut v = tracer.trace_ray(&mut rng, &s, ray, &mut aux);
        let mut tol = 1e-5 * sky;
        if met && refracts {
            // which may be weighed
            let x: Vec<f64> = (0..1500)
                .map(|_| tracer.trace_ray(&mut rng, &s, ray, &mut aux).0[0] / exp.0[0])
                .collect();
            let mean = x.iter().sum::<f64>() / 1500.;
            let var = x.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / 1500. / 1500.;
            v = mul3(exp, mean);
            tol = 6. * var.sqrt() + 0.002 * sky;
        }
        let bad = (0..3).any(|k| !((v.0[k] - sky * exp.0[k]).abs() < tol * exp.0[k]));
        if bad {
            off += 1;
            // rays that go through an edge may leave through it
            ensure!(
                transparent && off * 20 <= m,
                "{:?} comes from {:?} towards {:?}, under a uniform sky of {} {:?}",
                v,
                from,
                at,
                sky,
                tint
            );
        }
        if met {
            c.event("met", 1);
        }
    }
    c.seen(&made);
    Ok(())
}
/// what is seen on something that is alone, under a sky that is not uniform
fn under_sky(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let o = rnd_pt(r, 50.);
    let f = rnd_frame(r);
    let (kind, m, par) = loop {
        let x = rnd_material(r);
        if matches!(x.0, Kind::Diffuse | Kind::Plastic | Kind::Metal) {
            break x;
        }
    };
    // a + b·d + (g·d)², always positive
    let (b, g) = (
        mul(rnd_dir(r), r.range(0., 1.)),
        mul(rnd_dir(r), r.range(0., 1.5)),
    );
    let sky = move |d: V| 1. + dot(b, d) + dot(g, d).powi(2);
    let mut s = Scene::new();
    s.sky = Some(Box::new(move |d| sky([d.x, d.y, d.z])));
    let i = s.push_material(m.clone());
    let k = r.logu(0.05, 10.);
    for t in quad([-k, -k, 0.], [k, -k, 0.], [k, k, 0.], [-k, k, 0.]) {
        add_tri(&mut s, &t.map(|p| turn(&f, o, p)), i, i);
    }
    s.build_accelerator();
    let cos = *r.pick(&[1., 0.8, 0.5, 0.3]);
    let a = r.range(0., 6.3);
    let sin = (1. - cos * cos as f64).max(0.).sqrt();
    let wo = turn(&f, [0.; 3], [sin * a.cos(), sin * a.sin(), cos]);
    let at = turn(&f, o, [r.range(-k, k) * 0.9, r.range(-k, k) * 0.9, 0.]);
    let ray = Ray3D {
        origin: pt(add(at, mul(wo, r.logu(0.1, 10.)))),
        direction: ve(mul(wo, -1.)),
    };
    c.desc(format!("{:?} seen at cosine {}", m, cos));
    let tracer = RayTracer {
        max_depth: 1 + r.below(5),
        n_shadow_samples: 1,
        n_ambient_samples: 8000,
    };
    let mut rng = get_rng();
    let mut aux = [0; 32];
    let (mut sum, mut sq) = ([0.; 3], [0.; 3]);
    let n = 8000;
    for _ in 0..n {
        let v = tracer.trace_ray(&mut rng, &s, ray, &mut aux);
        for k in 0..3 {
            ensure!(
                v.0[k] >= 0. && v.0[k].is_finite(),
                "a radiance is {}",
                v.0[k]
            );
            sum[k] += v.0[k];
            sq[k] += v.0[k] * v.0[k];
        }
    }
    // every direction
    let (nt, np) = (400, 160);
    let mut exp = [0.; 3];
    for i in 0..nt {
        let z2 = (i as f64 + 0.5) / nt as f64;
        let (z, sn) = (z2.sqrt(), (1. - z2).sqrt());
        for j in 0..np {
            let a = (j as f64 + 0.5) / np as f64 * TAU;
            let wi = turn(&f, [0.; 3], [sn * a.cos(), sn * a.sin(), z]);
            let v = m.eval_bsdf(ve(f.n), ve(f.e1), ve(f.e2), ve(wo), ve(wi), 1.);
            for k in 0..3 {
                exp[k] += v.0[k] * sky(wi) * PI / (nt * np) as f64;
            }
        }
    }
    if kind == Kind::Diffuse {
        let n3 = f.n;
        // ∫ cos = π, ∫ d cos = 2π/3 n, ∫ d dᵀ cos = π/4 (1 + n nᵀ)
        let e = 1. + 2. / 3. * dot(b, n3) + 0.25 * (dot(g, g) + dot(g, n3).powi(2));
        for k in 0..3 {
            let x = m.colour().0[k] * e;
            ensure!(
                (x - exp[k]).abs() < 1e-3 * (1. + x),
                "{} is reflected by evaluating every direction, not {}",
                exp[k],
                x
            );
        }
    }
    let nf = n as f64;
    for k in 0..3 {
        let mean = sum[k] / nf;
        let err = 6. * ((sq[k] / nf - mean * mean).max(0.) / nf).sqrt() + 0.005 * exp[k] + 2e-3;
        ensure!(
            (mean - exp[k]).abs() < err + 0.01 * par,
            "{} is seen, instead of {}",
            mean,
            exp[k]
        );
    }
    c.event("surfaces", 1);
    c.seen(&format!("{:?} {} {:?}", kind, cos, (exp[0] * 1000.) as i64));
    Ok(())
}
fn under_sky_(c: &mut Case) -> R {
    insist(c, under_sky)
}
/// what lights give to a diffuse surface which sees nothing else
fn lights(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let o = rnd_pt(r, 50.);
    let f = rnd_frame(r);
    let rho = rnd_colour(r, 1.);
    let mut s = Scene::new();
    let m = s.push_material(Material::Diffuse(Diffuse { colour: rho }));
    let depth = if r.chance(0.4) { 0 } else { 1 + r.below(3) };
    let nl = 1 + r.below(3);
    // what faces away must not reflect light towards the plane
    let dark = s.push_material(Material::Diffuse(Diffuse {
        colour: Spectrum::gray(if depth == 0 || nl == 1 { r.f() } else { 0. }),
    }));
    // a plane, from which light is measured
    let k = 0.05;
    for t in quad(
        [-k, -k, 0.],
        [1.5 * k, -k, 0.],
        [1.5 * k, k, 0.],
        [-k, k, 0.],
    ) {
        add_tri(&mut s, &t.map(|p| turn(&f, o, p)), m, m);
    }
    let many = r.chance(0.6);
    let mut exp = [0.; 3];
    let mut desc = String::new();
    for i in 0..nl {
        let power = Spectrum([r.logu(0.1, 100.), r.logu(0.1, 100.), r.logu(0.1, 100.)]);
        let light = s.push_material(Material::Light(Light(power)));
        // apart from each other
        let az = (i as f64 + r.range(0.1, 0.9)) * TAU / nl as f64;
        let z = r.range(0.5, 0.9);
        let q = (1. - z * z as f64).sqrt();
        let dir = [q * az.cos(), q * az.sin(), z];
        let what = r.below(3);
        let hidden = nl == 1 && what < 2 && r.chance(0.3);
        let mut shown = true;
        let v = match what {
            0 => {
                let d = r.range(1., 10.);
                let size = d * if many {
                    r.range(0.05, 0.2)
                } else {
                    r.range(0.01, 0.03)
                };
                let cen = mul(dir, d);
                let t = [
                    add(cen, rnd_pt(r, size)),
                    add(cen, rnd_pt(r, size)),
                    add(cen, rnd_pt(r, size)),
                ];
                let nn = cross(sub(t[1], t[0]), sub(t[2], t[0]));
                if len(nn) < 0.1 * size * size || dot(unit(nn), unit(t[0])).abs() < 0.15 {
                    continue;
                }
                let front = dot(nn, cen) < 0.;
                let (fm, bm) = match r.below(4) {
                    0 => (light, dark),
                    1 => (dark, light),
                    _ => (light, light),
                };
                shown = (if front { fm } else { bm }) == light;
                if !add_tri(&mut s, &t.map(|p| turn(&f, o, p)), fm, bm) {
                    continue;
                }
                let mut v = lambert(&t, [0.; 3]);
                if dot(v, cen) < 0. {
                    v = mul(v, -1.);
                }
                v
            }
            1 => {
                let d = r.range(1., 10.);
                let size = d * if many {
                    r.range(0.02, 0.2)
                } else {
                    r.range(0.01, 0.02)
                };
                s.push_object(
                    light,
                    light,
                    Primitive::Sphere(Sphere3D::new(size, pt(turn(&f, o, mul(dir, d))))),
                );
                mul(dir, PI * (size / d).powi(2))
            }
            _ => {
                let angle = r.range(0.3, if many { 8. } else { 2. }).to_radians();
                s.push_object(
                    light,
                    light,
                    Primitive::Source(geometry::DistantSource3D::new(
                        ve(turn(&f, [0.; 3], dir)),
                        angle,
                    )),
                );
                mul(dir, PI * (angle / 2.).sin().powi(2))
            }
        };
        if hidden {
            // something in front of it
            let (e1, e2) = (perp(dir), cross(dir, perp(dir)));
            let cen = mul(dir, 0.4);
            let t = [0., 1., 2.].map(|i: f64| {
                add(
                    cen,
                    add(
                        mul(e1, 0.35 * (i * TAU / 3.).cos()),
                        mul(e2, 0.35 * (i * TAU / 3.).sin()),
                    ),
                )
            });
            add_tri(&mut s, &t.map(|p| turn(&f, o, p)), dark, dark);
            shown = false;
        }
        desc += &format!(
            "{}{}, ",
            if shown { "" } else { "hidden or facing away " },
            ["triangle", "sphere", "distant"][what]
        );
        if shown {
            for k in 0..3 {
                exp[k] += rho.0[k] / PI * power.0[k] * v[2];
            }
        }
        c.event(if shown { "lights" } else { "hidden" }, 1);
    }
    let ns = if many { 2 + r.below(8) } else { 1 };
    c.desc(format!(
        "{}on {:?} at {:?}, depth {}, {} shadow samples",
        desc, rho, o, depth, ns
    ));
    s.build_accelerator();
    let cos = r.range(0.3, 1.);
    let a = r.range(0., 6.3);
    let sin = (1. - cos * cos as f64).max(0.).sqrt();
    // from very close, so that nothing is in between
    let wo = turn(&f, [0.; 3], [sin * a.cos(), sin * a.sin(), cos]);
    let ray = Ray3D {
        origin: pt(add(o, mul(wo, 0.1))),
        direction: ve(mul(wo, -1.)),
    };
    let n = 6000;
    let tracer = RayTracer {
        max_depth: depth,
        n_shadow_samples: ns,
        n_ambient_samples: n,
    };
    let mut rng = get_rng();
    let mut aux = [0; 32];
    let (mut sum, mut sq) = ([0.; 3], [0.; 3]);
    for _ in 0..n {
        let v = tracer.trace_ray(&mut rng, &s, ray, &mut aux);
        for k in 0..3 {
            ensure!(
                v.0[k] >= 0. && v.0[k].is_finite(),
                "a radiance is {}",
                v.0[k]
            );
            sum[k] += v.0[k];
            sq[k] += v.0[k] * v.0[k];
        }
    }
    let nf = n as f64;
    for k in 0..3 {
        let mean = sum[k] / nf;
        // what faces away may reflect a little
        let err = 6. * ((sq[k] / nf - mean * mean).max(0.) / nf).sqrt() + 0.02 * exp[k] + 1e-6;
        ensure!(
            (mean - exp[k]).abs() < err,
            "{} is seen, instead of {}",
            mean,
            exp[k]
        );
    }
    c.event(if depth == 0 { "direct" } else { "bounces" }, 1);
    c.event(if ns == 1 { "centre" } else { "spread" }, 1);
    c.seen(&format!(
        "{} {} {} {:?}",
        desc,
        depth,
        ns,
        (exp[0] * 1000.) as i64
    ));
    Ok(())
}
fn lights_(c: &mut Case) -> R {
    insist(c, lights)
}
/// what arrives through a random path: only chance makes a path meet a light, unless
/// it is aimed at from diffuse surfaces (all of the light that comes straight from them)
fn follow(
    tris: &[(Tri, usize)],
    mats: &[Material],
    sky: &dyn Fn(V) -> f64,
    max_depth: usize,
    from: V,
    dir: V,
    r: &mut Rng,
) -> V {
    let hit = |p: V, d: V| -> Option<(f64, usize)> {
        let mut best: Option<(f64, usize)> = None;
        for (i, (t, _)) in tris.iter().enumerate() {
            if let Some((k, m, _)) = crossing(t, p, d) {
                if m >= 0. && k > 1e-5 && best.map(|b| k < b.0).unwrap_or(true) {
                    best = Some((k, i));
                }
            }
        }
        best
    };
    let is_light = |i: usize| matches!(mats[tris[i].1], Material::Light(_));
    let lamps: Vec<usize> = (0..tris.len()).filter(|i| is_light(*i)).collect();
    let (mut p, mut d, mut b) = (from, dir, [1.; 3]);
    let mut got = [0.; 3];
    let mut see = true;
    let mut depth = 0;
    loop {
        let Some((k, i)) = hit(p, d) else {
            for k in 0..3 {
                got[k] += b[k] * sky(d);
            }
            break;
        };
        let q = add(p, mul(d, k));
        let t = &tris[i].0;
        let mut nn = unit(cross(sub(t[1], t[0]), sub(t[2], t[0])));
        if dot(nn, d) > 0. {
            nn = mul(nn, -1.);
        }
        let m = &mats[tris[i].1];
        let col = m.colour().0;
        match m {
            Material::Light(_) => {
                if see {
                    for k in 0..3 {
                        got[k] += b[k] * col[k];
                    }
                }
                break;
            }
            Material::Mirror(_) => {
                depth += 1;
                if depth > max_depth {
                    break;
                }
                d = sub(d, mul(nn, 2. * dot(d, nn)));
                p = add(q, mul(nn, 1e-6));
                for k in 0..3 {
                    b[k] *= col[k];
                }
                // mirrors show the lights
                see = true;
            }
            _ => {
                p = add(q, mul(nn, 1e-6));
                for l in &lamps {
                    let t = &tris[*l].0;
                    let (u, v) = (r.f(), r.f());
                    let (u, v) = if u + v > 1. { (1. - u, 1. - v) } else { (u, v) };
                    let x = add(t[0], add(mul(sub(t[1], t[0]), u), mul(sub(t[2], t[0]), v)));
                    let g = sub(x, p);
                    let (dist, w) = (len(g), unit(g));
                    let ln = cross(sub(t[1], t[0]), sub(t[2], t[0]));
                    let c1 = dot(w, nn);
                    if c1 <= 0. {
                        continue;
                    }
                    if hit(p, w)
                        .map(|h| h.1 == *l || h.0 > dist * (1. - 1e-9))
                        .unwrap_or(true)
                    {
                        let gg = c1 * dot(unit(ln), w).abs() * len(ln) / 2. / dist / dist / PI;
                        let e = mats[tris[*l].1].colour().0;
                        for k in 0..3 {
                            got[k] += b[k] * col[k] * e[k] * gg;
                        }
                    }
                }
                depth += 1;
                if depth > max_depth {
                    break;
                }
                let (e1, e2) = (perp(nn), cross(nn, perp(nn)));
                let (u, a) = (r.f(), r.f() * TAU);
                d = unit(add(
                    mul(nn, (1. - u).sqrt()),
                    add(mul(e1, u.sqrt() * a.cos()), mul(e2, u.sqrt() * a.sin())),
                ));
                for k in 0..3 {
                    b[k] *= col[k];
                }
                see = false;
            }
        }
        // do not follow what does not matter
        let q = b[0].max(b[1]).max(b[2]);
        if q < 0.3 {
            if r.f() > q / 0.3 {
                break;
            }
            b = mul(b, 0.3 / q);
        }
    }
    got
}
/// rooms with lights in them, against following paths without any trick
fn rooms(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let o = rnd_pt(r, 30.);
    let f = rnd_frame(r);
    let mut s = Scene::new();
    let mut tris: Vec<(Tri, usize)> = vec![];
    let size = [r.range(3., 6.), r.range(3., 6.), r.range(2.5, 4.)];
    let mut desc = format!("{:?}: ", size);
    let mut mats = vec![];
    let mut new = |s: &mut Scene, m: Material| {
        mats.push(m.clone());
        s.push_material(m)
    };
    // walls
    let shell = box_tris([0.; 3], size);
    let open = r.chance(0.3);
    for (i, w) in shell.chunks(2).enumerate() {
        if open && i == 1 {
            continue; // no ceiling
        }
        let m = if r.chance(0.15) {
            Material::Mirror(Mirror(Spectrum::gray(r.range(0.3, 0.8))))
        } else {
            Material::Diffuse(Diffuse {
                colour: rnd_colour(r, 0.7),
            })
        };
        let m = new(&mut s, m);
        tris.extend(w.iter().map(|t| (*t, m)));
    }
    // something in it
    if r.chance(0.5) {
        let lo = [
            r.range(0.2, 0.5) * size[0],
            r.range(0.2, 0.5) * size[1],
            0.02,
        ];
        let hi = add(
            lo,
            [r.range(0.2, 0.8), r.range(0.2, 0.8), r.range(0.2, 0.6)],
        );
        let m = new(
            &mut s,
            Material::Diffuse(Diffuse {
                colour: rnd_colour(r, 0.7),
            }),
        );
        tris.extend(box_tris(lo, hi).into_iter().map(|t| (t, m)));
        desc += "furniture, ";
    }
    // lights, away from everything
    for _ in 0..1 + r.below(2) {
        let k = r.range(0.03, 0.1);
        let power = Spectrum([r.range(1., 10.), r.range(1., 10.), r.range(1., 10.)]);
        let m = new(&mut s, Material::Light(Light(mul3(power, 1. / (k * k)))));
        let cen = [
            r.range(0.35, 0.65) * size[0],
            r.range(0.35, 0.65) * size[1],
            r.range(0.5, 0.65) * size[2],
        ];
        let t = [
            add(cen, rnd_pt(r, k)),
            add(cen, rnd_pt(r, k)),
            add(cen, rnd_pt(r, k)),
        ];
        if len(cross(sub(t[1], t[0]), sub(t[2], t[0]))) < 0.5 * k * k {
            continue;
        }
        tris.push((t, m));
        desc += "light, ";
    }
    let sky = if open || r.chance(0.1) {
        r.range(0.1, 2.)
    } else {
        0.
    };
    if sky > 0. {
        s.sky = Some(Box::new(move |_| sky));
    }
    for (t, m) in &tris {
        ensure!(
            add_tri(&mut s, &t.map(|p| turn(&f, o, p)), *m, *m),
            "a triangle was refused"
        );
    }
    s.build_accelerator();
    let from = [
        r.range(0.05, 0.95) * size[0],
        r.range(0.05, 0.95) * size[1],
        r.range(0.75, 0.95) * size[2],
    ];
    let at = [r.range(0., 1.) * size[0], r.range(0., 1.) * size[1], 0.];
    let dir = unit(sub(at, from));
    let max_depth = *r.pick(&[1, 2, 4, 50]);
    c.desc(format!(
        "{}sky {}, at {:?}, depth {}, from {:?} towards {:?}",
        desc, sky, o, max_depth, from, dir
    ));
    let n = 12000;
    let tracer = RayTracer {
        max_depth,
        n_shadow_samples: 1 + r.below(4),
        n_ambient_samples: n,
    };
    let mut rng = get_rng();
    let mut aux = [0; 32];
    let ray = Ray3D {
        origin: pt(turn(&f, o, from)),
        direction: ve(turn(&f, [0.; 3], dir)),
    };
    let (mut sum, mut sq) = ([0.; 3], [0.; 3]);
    for _ in 0..n {
        let v = tracer.trace_ray(&mut rng, &s, ray, &mut aux);
        for k in 0..3 {
            ensure!(
                v.0[k] >= 0. && v.0[k].is_finite(),
                "a radiance is {}",
                v.0[k]
            );
            sum[k] += v.0[k];
            sq[k] += v.0[k] * v.0[k];
        }
    }
    let sky = move |_: V| sky;
    let (mut rsum, mut rsq) = ([0.; 3], [0.; 3]);
    for _ in 0..n {
        let got = follow(&tris, &mats, &sky, max_depth, from, dir, r);
        for k in 0..3 {
            rsum[k] += got[k];
            rsq[k] += got[k] * got[k];
        }
    }
    let nf = n as f64;
    for k in 0..3 {
        let (x, y) = (sum[k] / nf, rsum[k] / nf);
        let var = (sq[k] / nf - x * x).max(0.) / nf + (rsq[k] / nf - y * y).max(0.) / nf;
        ensure!(
            (x - y).abs() < 6. * var.sqrt() + 0.03 * y + 1e-6,
            "{} is seen, but following every path gives {}",
            x,
            y
        );
        if var.sqrt() < 0.05 * y {
            c.event("precise", 1);
        }
    }
    c.event("rooms", 1);
    c.seen(&format!(
        "{} {} {:?}",
        desc,
        max_depth,
        (rsum[0] * 1000. / nf) as i64
    ));
    Ok(())
}
fn mul3(s: Spectrum, k: f64) -> Spectrum {
    Spectrum([s.0[0] * k, s.0[1] * k, s.0[2] * k])
}
fn rooms_(c: &mut Case) -> R {
    insist(c, rooms)
}
/// each pixel of a rendered image is what its ray sees
fn pictures(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let o = rnd_pt(r, 30.);
    let mut s = Scene::new();
    let mut tris = vec![];
    for _ in 0..1 + r.below(30) {
        let cen = add(o, rnd_pt(r, 5.));
        let t = [
            add(cen, rnd_pt(r, 2.)),
            add(cen, rnd_pt(r, 2.)),
            add(cen, rnd_pt(r, 2.)),
        ];
        let (a, b) = (
            Spectrum([r.f(), r.f(), r.f()]),
            Spectrum([r.f(), r.f(), r.f()]),
        );
        let (i, j) = (
            s.push_material(Material::Light(Light(a))),
            s.push_material(Material::Light(Light(b))),
        );
        if add_tri(&mut s, &t, i, j) {
            tris.push((t, a, b));
        }
    }
    s.build_accelerator();
    if r.chance(0.7) {
        s.sky = Some(Box::new(|d| 10. + d.z));
        if r.chance(0.5) {
            s.sky_colour = Some(Spectrum([1., 2., 3.]));
        }
    }
    let sky = |d: V| -> [f64; 3] {
        match (&s.sky, &s.sky_colour) {
            (None, _) => [0.; 3],
            (Some(_), None) => [10. + d[2]; 3],
            (Some(_), Some(k)) => [0, 1, 2].map(|i| k.0[i] * (10. + d[2])),
        }
    };
    let (w, h) = (1 + r.below(60), 1 + r.below(60));
    let dir = rnd_dir(r);
    let view = View {
        view_point: pt(add(o, mul(dir, -8.))),
        view_direction: ve(dir),
        view_up: ve(perp(dir)),
        field_of_view: r.range(10., 100.),
    };
    let mut rays = vec![];
    {
        let cam = Pinhole::new(view.clone(), Film { resolution: (w, h) });
        for y in 0..h {
            for x in 0..w {
                rays.push(cam.gen_ray(&CameraSample { p_film: (x, y) }).0);
            }
        }
    }
    let cam = Pinhole::new(view, Film { resolution: (w, h) });
    let tracer = RayTracer {
        max_depth: r.below(3),
        n_shadow_samples: 1 + r.below(3),
        n_ambient_samples: 1 + r.below(4),
    };
    c.desc(format!(
        "{} x {}, {} triangles, {:?}",
        w,
        h,
        tris.len(),
        tracer
    ));
    let im = tracer.render(&s, &cam);
    ensure!(
        im.width == w && im.height == h && im.pixels.len() == w * h,
        "the image is {} x {}, of {} pixels",
        im.width,
        im.height,
        im.pixels.len()
    );
    for (i, ray) in rays.iter().enumerate() {
        let (p, d) = (fp(ray.origin), fv(ray.direction));
        let mut best: Option<(f64, [f64; 3])> = None;
        let mut close = false;
        let mut second = f64::MAX;
        for (t, a, b) in &tris {
            if let Some((k, m, cos)) = crossing(t, p, d) {
                close |= m.abs() < 1e-6 || cos < 1e-3;
                if m > 0. && k > 0. {
                    let nn = cross(sub(t[1], t[0]), sub(t[2], t[0]));
                    let col = if dot(nn, d) < 0. { a.0 } else { b.0 };
                    if best.map(|x| k < x.0).unwrap_or(true) {
                        second = best.map(|x| x.0).unwrap_or(f64::MAX);
                        best = Some((k, col));
                    } else {
                        second = second.min(k);
                    }
                }
            }
        }
        if close || best.map(|x| second - x.0 < 1e-3).unwrap_or(false) {
            continue;
        }
        let exp = best.map(|x| x.1).unwrap_or_else(|| sky(d));
        let got = im.pixels[i].0;
        for k in 0..3 {
            ensure!(
                (got[k] - exp[k]).abs() < 1e-6,
                "pixel {} ({}, {}) is {:?}, but {:?} is there",
                i,
                i % w,
                i / w,
                got,
                exp
            );
        }
        c.event(if best.is_some() { "things" } else { "sky" }, 1);
    }
    c.seen(&format!("{} {} {}", w, h, tris.len()));
    Ok(())
}
use rendering::DCFactory;
use weather::{PerezSky, ReinhartSky, SkyUnits, Solar};

/// the sun and the sky of Perez, and what they do to a surface
fn suns(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let (day, lat) = if r.chance(0.3) {
        // the sun goes through the zenith, or almost
        let day = r.below(365);
        let s = Solar::new(0., 0., 0.);
        (
            day,
            s.declination(day as f64 + 0.5).to_degrees() + r.range(-2., 2.),
        )
    } else {
        (r.below(365), r.range(-60., 60.))
    };
    let meridian = 15. * (r.below(25) as f64 - 12.);
    let lon = meridian + r.range(-8., 8.);
    let solar = Solar::new(lat.to_radians(), lon.to_radians(), meridian.to_radians());
    let hour = match r.below(3) {
        0 => {
            let d = solar.solar_standard_time_difference(day as f64 + 0.5) / 60.;
            12. - d + r.range(-0.12, 0.12)
        }
        1 => r.range(0., 24.),
        _ => r.range(8., 16.),
    };
    let mut date = calendar::Date {
        month: 1,
        day: 1,
        hour: 0.,
    };
    date.add_hours(24. * day as f64 + hour);
    let (dif, dir) = (
        r.range(20., 300.),
        if r.chance(0.1) { 0. } else { r.logu(5., 900.) },
    );
    let mut s = Scene::new();
    s.add_perez_sky(date, lat, lon, meridian, dif, dir);
    let t = weather::Time::Standard(date.day_of_year());
    let d = format!(
        "latitude {} longitude {} meridian {} {:?} diffuse {} direct {}",
        lat, lon, meridian, date, dif, dir
    );
    c.desc(d.clone());
    let sky = s.sky.take();
    ensure!(sky.is_some(), "there is no sky; {}", d);
    let sky = sky.unwrap();
    let Some(sun) = solar.sun_position(t) else {
        c.event("night", 1);
        ensure!(
            s.distant_lights.is_empty() && s.lights.is_empty(),
            "there is a sun at night; {}",
            d
        );
        ensure!(sky(ve(rnd_dir(r))) == 0., "the sky shines at night; {}", d);
        return Ok(());
    };
    let p = fv(sun);
    ensure!(
        s.distant_lights.len() == 1 && s.lights.is_empty(),
        "there are {} suns; {}",
        s.distant_lights.len(),
        d
    );
    // what the sun gives, according to Perez et al. 1990
    let zenith = p[2].clamp(0., 1.).acos().max(3f64.to_radians());
    let n = solar.unwrap_solar_time(t);
    let b = TAU * (n - 1.) / 365.;
    let e0 = 1.000110
        + 0.034221 * b.cos()
        + 0.001280 * b.sin()
        + 0.000719 * (2. * b).cos()
        + 0.000077 * (2. * b).sin();
    let m = weather::solar::air_mass(zenith);
    let delta = (dif * m / (1367. * e0)).max(0.01);
    let z3 = 1.041 * zenith.powi(3);
    let eps = ((dif + dir) / dif + z3) / (1. + z3);
    let cat = [1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2]
        .iter()
        .filter(|x| eps >= **x)
        .count();
    if [1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2]
        .iter()
        .any(|x| (eps - x as &f64).abs() < 1e-3)
    {
        return Ok(());
    }
    let table = [
        (57.20, -4.55, -2.98, 117.12),
        (98.99, -3.46, -1.21, 12.38),
        (109.83, -4.90, -1.71, -8.81),
        (110.34, -5.84, -1.99, -4.56),
        (106.36, -3.97, -1.75, -6.16),
        (107.19, -1.25, -1.51, -26.73),
        (105.75, 0.77, -1.26, -34.44),
        (101.18, 1.58, -1.10, -8.29),
    ];
    let w = (0.07f64 * 11. - 0.075).exp();
    let (a0, a1, a2, a3) = table[cat];
    let efficacy: f64 = a0 + a1 * w + a2 * (5.73 * zenith - 5.).exp() + a3 * delta;
    let e_sun = dir * efficacy.max(0.) / 179.;
    // the sky is the one that the weather says
    let f = PerezSky::get_sky_func_standard_time(SkyUnits::Visible, &solar, date, 11., dif, dir);
    for _ in 0..20 {
        let v = ve(rnd_dir(r));
        ensure!(
            (f(v) - sky(v)).abs() <= 1e-9 * (1. + f(v)),
            "the sky is {} instead of {}; {}",
            sky(v),
            f(v),
            d
        );
    }
    // a surface under them
    let g = loop {
        let g = rnd_frame(r);
        if (dot(g.n, p) - 0.02).abs() > 0.02 {
            break g;
        }
    };
    let o = rnd_pt(r, 10.);
    let rho = r.range(0.2, 0.9);
    let i = s.push_material(Material::Diffuse(Diffuse {
        colour: Spectrum::gray(rho),
    }));
    for t in quad([-1., -1., 0.], [1., -1., 0.], [1., 1., 0.], [-1., 1., 0.]) {
        add_tri(&mut s, &t.map(|p| turn(&g, o, p)), i, i);
    }
    let (nt, np) = (120, 120);
    let mut e_sky = 0.;
    for i in 0..nt {
        let z2 = (i as f64 + 0.5) / nt as f64;
        let (z, sn) = (z2.sqrt(), (1. - z2).sqrt());
        for j in 0..np {
            let a = (j as f64 + 0.5) / np as f64 * TAU;
            e_sky +=
                PI / (nt * np) as f64 * sky(ve(turn(&g, [0.; 3], [sn * a.cos(), sn * a.sin(), z])));
        }
    }
    s.sky = Some(sky);
    s.build_accelerator();
    let e_dir = e_sun * dot(g.n, p).max(0.);
    let n_samples = 3000;
    let tracer = RayTracer {
        max_depth: 2,
        n_shadow_samples: 1,
        n_ambient_samples: n_samples,
    };
    let mut rng = get_rng();
    let mut aux = [0; 32];
    let ray = Ray3D {
        origin: pt(turn(&g, o, [0.1, 0.2, 1.5])),
        direction: ve(mul(g.n, -1.)),
    };
    let x: Vec<f64> = (0..n_samples)
        .map(|_| tracer.trace_ray(&mut rng, &s, ray, &mut aux).0[0])
        .collect();
    let mean = x.iter().sum::<f64>() / x.len() as f64;
    let var = x.iter().map(|y| (y - mean) * (y - mean)).sum::<f64>() / (x.len() * x.len()) as f64;
    let exp = rho / PI * (e_dir + e_sky);
    // the sky may have a peak around the sun
    ensure!(
        (mean - exp).abs() < 7. * var.sqrt() + 0.01 * (e_dir + e_sky) * rho / PI + 1e-6,
        "a surface looks {}, not {} (sun {}, sky {}); {}",
        mean,
        exp,
        rho / PI * e_dir,
        rho / PI * e_sky,
        d
    );
    if e_dir > 0. {
        c.event("sunny", 1);
        if p[2] > 3f64.to_radians().cos() {
            c.event("zenith", 1);
        }
    }
    c.seen(&format!("{} {}", cat, (exp * 1000.) as i64));
    Ok(())
}
fn suns_(c: &mut Case) -> R {
    insist(c, suns)
}
/// daylight coefficients times a sky are what arrives from that sky
fn coefficients(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let mf = *r.pick(&[1, 1, 2, 3]);
    let sky_of = ReinhartSky::new(mf);
    let n_bins = sky_of.n_bins;
    let o = rnd_pt(r, 20.);
    let f = rnd_frame(r);
    let mut s = Scene::new();
    let mut tris: Vec<(Tri, usize)> = vec![];
    let mut mats = vec![];
    let mut desc = format!("mf {}: ", mf);
    let size = [r.range(3., 6.), r.range(3., 6.), r.range(2.5, 4.)];
    let empty = r.chance(0.25);
    let mut new = |s: &mut Scene, m: Material| {
        mats.push(if let Material::Light(_) = m {
            Material::Light(Light(Spectrum::BLACK))
        } else {
            m.clone()
        });
        s.push_material(m)
    };
    if !empty {
        let shell = box_tris([0.; 3], size);
        let open = [r.below(6), r.below(6), r.below(6)];
        for (i, w) in shell.chunks(2).enumerate() {
            if open.contains(&i) {
                continue;
            }
            let (m, what) = match r.below(8) {
                0 => (
                    Material::Mirror(Mirror(Spectrum::gray(r.range(0.3, 0.9)))),
                    "mirror",
                ),
                1 => (Material::Light(Light(Spectrum::gray(5.))), "light"),
                _ => (
                    Material::Diffuse(Diffuse {
                        colour: rnd_colour(r, 0.8),
                    }),
                    "wall",
                ),
            };
            let m = new(&mut s, m);
            desc += &format!("{} {}, ", what, i);
            tris.extend(w.iter().map(|t| (*t, m)));
        }
        if r.chance(0.5) {
            let lo = [
                r.range(0.2, 0.5) * size[0],
                r.range(0.2, 0.5) * size[1],
                r.range(0.2, 0.5) * size[2],
            ];
            let hi = add(
                lo,
                [r.range(0.2, 0.8), r.range(0.2, 0.8), r.range(0.2, 0.6)],
            );
            let m = new(
                &mut s,
                Material::Diffuse(Diffuse {
                    colour: rnd_colour(r, 0.8),
                }),
            );
            tris.extend(box_tris(lo, hi).into_iter().map(|t| (t, m)));
            desc += "furniture, ";
        }
    }
    for (t, m) in &tris {
        ensure!(
            add_tri(&mut s, &t.map(|p| turn(&f, o, p)), *m, *m),
            "a triangle was refused"
        );
    }
    s.build_accelerator();
    let max_depth = *r.pick(&[0, 1, 3, 100]);
    let sensors: Vec<(V, V)> = (0..1 + r.below(4))
        .map(|_| {
            (
                [
                    r.range(0.03, 0.18) * size[0],
                    r.range(0.03, 0.97) * size[1],
                    r.range(0.03, 0.97) * size[2],
                ],
                rnd_dir(r),
            )
        })
        .collect();
    c.desc(format!(
        "{}at {:?}, depth {}, sensors {:?}",
        desc, o, max_depth, sensors
    ));
    let rays: Vec<Ray3D> = sensors
        .iter()
        .map(|(p, d)| Ray3D {
            origin: pt(turn(&f, o, *p)),
            direction: ve(turn(&f, [0.; 3], *d)),
        })
        .collect();
    let w: Vec<f64> = (0..n_bins).map(|_| r.range(0.2, 2.)).collect();
    let (batches, per) = (24, if empty { 1500 } else { 300 });
    let mut rows = vec![vec![[0.; 3]; n_bins]; rays.len()];
    let mut tot = vec![vec![]; rays.len()];
    for _ in 0..batches {
        let factory = DCFactory {
            reinhart: ReinhartSky::new(mf),
            max_depth,
            n_ambient_samples: per,
        };
        let dc = factory.calc_dc(&rays, &s, None);
        ensure!(
            dc.size() == (rays.len(), n_bins),
            "the coefficients of {} sensors are {:?}",
            rays.len(),
            dc.size()
        );
        for i in 0..rays.len() {
            let mut t = [0.; 3];
            for j in 0..n_bins {
                let v = dc.get(i, j).map_err(Fail::Bad)?.0;
                for k in 0..3 {
                    ensure!(v[k] >= 0. && v[k].is_finite(), "a coefficient is {}", v[k]);
                    t[k] += v[k] * w[j];
                    rows[i][j][k] += v[k] / batches as f64;
                }
            }
            tot[i].push(t);
        }
    }
    for (i, (p, d)) in sensors.iter().enumerate() {
        if empty {
            let sum: f64 = rows[i].iter().map(|v| v[0]).sum();
            ensure!(
                (sum - PI).abs() < 1e-6,
                "the coefficients without obstructions add {}",
                sum
            );
            let g = {
                let n = unit(turn(&f, [0.; 3], *d));
                let e1 = perp(n);
                (e1, cross(n, e1), n)
            };
            let m = 500;
            let mut prob = vec![0.; n_bins];
            for a in 0..m {
                let z2 = (a as f64 + r.f()) / m as f64;
                let (z, sn) = (z2.sqrt(), (1. - z2).sqrt());
                for b in 0..m {
                    let t = (b as f64 + r.f()) / m as f64 * TAU;
                    let v = add(
                        mul(g.2, z),
                        add(mul(g.0, sn * t.cos()), mul(g.1, sn * t.sin())),
                    );
                    prob[sky_of.dir_to_bin(ve(unit(v)))] += 1. / (m * m) as f64;
                }
            }
            let n = (batches * per) as f64;
            for j in 0..n_bins {
                let x = rows[i][j][0] / PI;
                ensure!(
                    (x - prob[j]).abs() < 6.5 * (prob[j] / n).sqrt() + 0.01 * prob[j] + 8. / n,
                    "bin {} sees {} of the sky instead of {}",
                    j,
                    x,
                    prob[j]
                );
            }
            c.event("empty", 1);
        }
        let frame = |d: V| turn(&f, [0.; 3], d);
        let sky = |d: V| w[sky_of.dir_to_bin(ve(unit(frame(d))))];
        let (e1, e2) = (perp(*d), cross(*d, perp(*d)));
        let n = 6000;
        let (mut rsum, mut rsq) = ([0.; 3], [0.; 3]);
        for _ in 0..n {
            let (u, a) = (r.f(), r.f() * TAU);
            let dir = unit(add(
                mul(*d, (1. - u).sqrt()),
                add(mul(e1, u.sqrt() * a.cos()), mul(e2, u.sqrt() * a.sin())),
            ));
            let got = follow(&tris, &mats, &sky, max_depth, *p, dir, r);
            for k in 0..3 {
                rsum[k] += got[k] * PI;
                rsq[k] += (got[k] * PI).powi(2);
            }
        }
        let nb = batches as f64;
        let nf = n as f64;
        for k in 0..3 {
            let x = tot[i].iter().map(|t| t[k]).sum::<f64>() / nb;
            let vx = tot[i].iter().map(|t| (t[k] - x).powi(2)).sum::<f64>() / nb / (nb - 1.);
            let y = rsum[k] / nf;
            let vy = (rsq[k] / nf - y * y).max(0.) / nf;
            let sd = (vx + vy).sqrt();
            ensure!(
                (x - y).abs() < 6. * sd + 0.005 * y + 2e-3,
                "sensor {} of {} receives {} through the coefficients, but {} by following every path",
                i,
                sensors.len(),
                x,
                y
            );
            if sd < 0.02 * y {
                c.event("precise", 1);
            }
        }
        c.event("sensors", 1);
        c.seen(&format!(
            "{} {} {:?}",
            mf,
            max_depth,
            (rsum[0] * 100. / nf) as i64
        ));
    }
    Ok(())
}
fn coefficients_(c: &mut Case) -> R {
    insist(c, coefficients)
}
fn num(r: &mut Rng, x: f64) -> String {
    let s = match r.below(4) {
        0 => format!("{:e}", x),
        1 => format!("{:.25}", x),
        _ => format!("{}", x),
    };
    if r.chance(0.1) && x >= 0. {
        format!("+{}", s)
    } else {
        s
    }
}
fn gap(r: &mut Rng) -> &'static str {
    *r.pick(&[" ", " ", " ", "  ", "\t", "\n", "\n ", "\r\n", " \n\n\t"])
}
fn plain_polygon(r: &mut Rng) -> Vec<V> {
    // a star around a point, turned
    let n = 3 + r.below(7);
    let f = rnd_frame(r);
    let o = rnd_pt(r, 20.);
    let size = r.logu(0.3, 10.);
    let (a0, convex) = (r.range(0., TAU), r.chance(0.4));
    (0..n)
        .map(|i| {
            let a = a0 + (i as f64 + r.range(-0.2, 0.2)) / n as f64 * TAU;
            let k = size * if convex { 1. } else { r.range(0.5, 1.) };
            turn(&f, o, [k * a.cos(), k * a.sin(), 0.])
        })
        .collect()
}
fn vec_area(p: &[V]) -> V {
    let mut s = [0.; 3];
    for i in 1..p.len() - 1 {
        s = add(s, mul(cross(sub(p[i], p[0]), sub(p[i + 1], p[0])), 0.5));
    }
    s
}
/// what a Radiance file says is what the scene has
fn radiance(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let mut txt = String::new();
    if r.chance(0.3) {
        txt += gap(r);
    }
    let mut mats: Vec<Material> = vec![];
    let mut names: Vec<(String, usize)> = vec![];
    enum Thing {
        Polygon(Vec<V>, usize),
        Sphere(V, f64, usize),
        Source(V, f64, usize),
    }
    let mut things = vec![];
    for i in 0..2 + r.below(14) {
        let what = if i == 0 { 0 } else { r.below(4) };
        let mut words: Vec<String> = vec![];
        if what == 0 {
            let rgb = [r.range(0., 1.), r.range(0., 1.), r.range(0., 1.)];
            let colour = Spectrum(rgb);
            let name = if !names.is_empty() && r.chance(0.15) {
                r.pick(&names).0.clone()
            } else {
                format!(
                    "{}{}",
                    r.pick(&["mat", "a-wall_", "Glass.", "void"]),
                    names.len()
                )
            };
            let spec = *r.pick(&[0., 0.03, 0.2, 0.9]);
            let rough = *r.pick(&[0., 0.05, 0.3]);
            let n = r.range(1.01, 2.4);
            let (kind, args, m) = match r.below(8) {
                0 | 1 => (
                    "plastic",
                    vec![spec, rough],
                    if spec < 1e-5 {
                        Material::Diffuse(Diffuse { colour })
                    } else {
                        Material::Plastic(Plastic {
                            colour,
                            specularity: spec,
                            roughness: rough,
                        })
                    },
                ),
                2 => (
                    "metal",
                    vec![spec, rough],
                    if spec < 1e-5 {
                        Material::Diffuse(Diffuse { colour })
                    } else {
                        Material::Metal(Metal {
                            colour,
                            specularity: spec,
                            roughness: rough,
                        })
                    },
                ),
                3 => ("light", vec![], Material::Light(Light(colour))),
                4 => ("mirror", vec![], Material::Mirror(Mirror(colour))),
                5 => (
                    "dielectric",
                    vec![n, 0.],
                    Material::Dielectric(Dielectric {
                        colour,
                        refraction_index: n,
                    }),
                ),
                6 => (
                    "glass",
                    vec![n],
                    Material::Glass(Glass {
                        colour,
                        refraction_index: n,
                    }),
                ),
                _ => (
                    "glass",
                    vec![],
                    Material::Glass(Glass {
                        colour,
                        refraction_index: 1.52,
                    }),
                ),
            };
            words.extend(["void".into(), kind.into(), name.clone()]);
            words.extend(["0".into(), "0".into(), format!("{}", 3 + args.len())]);
            for x in rgb.iter().chain(args.iter()) {
                words.push(num(r, *x));
            }
            if names.iter().any(|x| x.0 == name) {
                c.event("defined again", 1);
            }
            names.retain(|x| x.0 != name);
            names.push((name, mats.len()));
            mats.push(m);
            c.event("materials", 1);
        } else {
            let light = |m: &usize| matches!(mats[*m], Material::Light(_));
            let (name, m) = r.pick(&names).clone();
            let id = format!("thing{}", r.below(5));
            let (kind, args) = match what {
                1 => {
                    let (o, k) = (rnd_pt(r, 50.), r.logu(0.01, 10.));
                    things.push(Thing::Sphere(o, k, m));
                    ("sphere", vec![o[0], o[1], o[2], k])
                }
                2 if light(&m) => {
                    let (d, a) = (mul(rnd_dir(r), r.logu(0.1, 10.)), r.range(0.1, 20.));
                    things.push(Thing::Source(d, a, m));
                    ("source", vec![d[0], d[1], d[2], a])
                }
                _ => {
                    let p = plain_polygon(r);
                    let args = p.iter().flatten().cloned().collect();
                    things.push(Thing::Polygon(p, m));
                    ("polygon", args)
                }
            };
            words.extend([name, kind.into(), id]);
            words.extend(["0".into(), "0".into(), format!("{}", args.len())]);
            for x in &args {
                words.push(num(r, *x));
            }
        }
        for w in words {
            txt += &w;
            txt += gap(r);
        }
    }
    if r.chance(0.3) {
        txt = txt.trim_end().to_string();
    }
    c.desc(txt.clone());
    let s = if r.chance(0.3) {
        let f = scratch(".rad");
        std::fs::write(&f, &txt).map_err(|e| Fail::Inconclusive(format!("{}", e)))?;
        let s = Scene::from_radiance(f.clone());
        let _ = std::fs::remove_file(&f);
        s
    } else {
        Scene::from_radiance_source(txt.as_bytes())
    };
    let s = s.map_err(|e| Fail::Bad(format!("a valid file is refused: {}", e)))?;
    ensure!(
        s.materials.len() == mats.len(),
        "{} materials, of {}",
        s.materials.len(),
        mats.len()
    );
    for (a, b) in s.materials.iter().zip(&mats) {
        ensure!(
            format!("{:?}", a) == format!("{:?}", b),
            "{:?} was read instead of {:?}",
            a,
            b
        );
    }
    // each thing, in order
    let mut at = 0;
    let (mut li, mut di) = (0, 0);
    for t in &things {
        let m = match t {
            Thing::Polygon(_, m) | Thing::Sphere(_, _, m) | Thing::Source(_, _, m) => *m,
        };
        let light = matches!(mats[m], Material::Light(_));
        let of = |i: usize| -> R {
            ensure!(
                s.front_material_indexes[i] == m && s.back_material_indexes[i] == m,
                "triangle {} is of material {} and {} instead of {}",
                i,
                s.front_material_indexes[i],
                s.back_material_indexes[i],
                m
            );
            Ok(())
        };
        match t {
            Thing::Polygon(p, _) => {
                let va = vec_area(p);
                let (area, n) = (len(va), unit(va));
                let size = p.iter().map(|q| len(sub(*q, p[0]))).fold(0., f64::max);
                // nearly straight corners may be left out
                let tol = 1e-6 * size * size + 1e-5 * p.len() as f64;
                let mut got = 0.;
                let sliver = |i: usize| {
                    s.triangles.get(i).is_some_and(|t| {
                        let t = tri_of(t);
                        len(vec_area(&t)) < tol
                            && t.iter()
                                .all(|q| p.iter().any(|x| len(sub(*x, *q)) < 1e-6))
                    })
                };
                while got < area - tol || sliver(at) {
                    ensure!(
                        at < s.triangles.len(),
                        "the triangles of a polygon cover {} of {}",
                        got,
                        area
                    );
                    of(at)?;
                    let t = tri_of(&s.triangles[at]);
                    let ta = vec_area(&t);
                    ensure!(
                        dot(ta, n) > 0. && len(sub(ta, mul(n, len(ta)))) < 1e-6 * size * size,
                        "triangle {:?} of a polygon of normal {:?} faces {:?}",
                        t,
                        n,
                        ta
                    );
                    for q in &t {
                        ensure!(
                            p.iter().any(|x| len(sub(*x, *q)) < 1e-6),
                            "{:?} is not a corner of {:?}",
                            q,
                            p
                        );
                    }
                    got += len(ta);
                    at += 1;
                    if light {
                        let Some(Primitive::Triangle(x)) = s.lights.get(li).map(|l| &l.primitive)
                        else {
                            return Err(Fail::Bad(format!("triangle {} should be a light", at)));
                        };
                        ensure!(
                            (x.area() - len(ta)).abs() < 1e-9 * (1. + len(ta)),
                            "a light has an area of {}, not {}",
                            x.area(),
                            len(ta)
                        );
                        li += 1;
                    }
                }
                ensure!(
                    (got - area).abs() < tol,
                    "the triangles of a polygon of {} have {}",
                    area,
                    got
                );
                c.event("polygons", 1);
            }
            Thing::Sphere(o, k, _) => {
                let mut n = 0;
                while at < s.triangles.len() {
                    let t = tri_of(&s.triangles[at]);
                    if t.iter()
                        .any(|q| (len(sub(*q, *o)) - k).abs() > 1e-5 * (1. + k))
                    {
                        break;
                    }
                    // which face out
                    if len(vec_area(&t)) > 1e-6 * k * k {
                        ensure!(
                            dot(vec_area(&t), sub(t[0], *o)) != 0.,
                            "a triangle of a sphere is across it: {:?}",
                            t
                        );
                    }
                    of(at)?;
                    at += 1;
                    n += 1;
                }
                ensure!(n > 20, "a sphere has {} triangles", n);
                if light {
                    let Some(Primitive::Sphere(x)) = s.lights.get(li).map(|l| &l.primitive) else {
                        return Err(Fail::Bad("a sphere should be a light".into()));
                    };
                    ensure!(
                        x.radius == *k && len(sub(fp(x.centre()), *o)) < 1e-9,
                        "a light is at {:?} with a radius of {}, not {:?} {}",
                        x.centre(),
                        x.radius,
                        o,
                        k
                    );
                    li += 1;
                }
                c.event("spheres", 1);
            }
            Thing::Source(d, a, m) => {
                let Some(Primitive::Source(x)) = s.distant_lights.get(di).map(|l| &l.primitive)
                else {
                    return Err(Fail::Bad("a distant light is missing".into()));
                };
                ensure!(
                    len(sub(fv(x.direction), unit(*d))) < 1e-9
                        && (x.angle - a.to_radians()).abs() < 1e-12
                        && s.distant_lights[di].front_material_index == *m,
                    "a distant light is towards {:?} with {} radians, not {:?} {} degrees",
                    x.direction,
                    x.angle,
                    d,
                    a
                );
                di += 1;
                c.event("sources", 1);
            }
        }
    }
    ensure!(
        at == s.triangles.len() && li == s.lights.len() && di == s.distant_lights.len(),
        "the scene has {} triangles, {} lights and {} distant lights; the file, {}, {} and {}",
        s.triangles.len(),
        s.lights.len(),
        s.distant_lights.len(),
        at,
        li,
        di
    );
    c.seen(&txt);
    Ok(())
}
/// what an OBJ file says is what the scene has
fn objects(c: &mut Case) -> R {
    let mut own = c.rng.clone();
    let r = &mut own;
    let mut txt = String::new();
    let size = r.logu(1., 100.);
    let (mut nv, mut nt, mut nn) = (0, 0, 0);
    let mut vs: Vec<V> = vec![];
    let mut exp: Vec<Tri> = vec![];
    if r.chance(0.3) {
        txt += "# made by hand\n\n";
    }
    let coords = |x: f64| (x as f32) as f64;
    for g in 0..1 + r.below(3) {
        if r.chance(0.3) {
            txt += &format!("{} thing{}\n", r.pick(&["o", "g"]), g);
        }
        for _ in 0..4 + r.below(12) {
            let p = rnd_pt(r, size).map(|x| coords((x * 1000.).round() / 1000.));
            txt += &match r.below(3) {
                0 => format!("v {:.3} {:.3} {:.3}\n", p[0], p[1], p[2]),
                1 => format!("v  {:.6}  {:.6} {:.6} 1.0\n", p[0], p[1], p[2]),
                _ => format!("v {:e} {:e} {:e}\n", p[0], p[1], p[2]),
            };
            vs.push(p);
            nv += 1;
        }
        for _ in 0..1 + r.below(5) {
            txt += &format!("vt {:.3} {:.3}\n", r.f(), r.f());
            nt += 1;
        }
        for _ in 0..1 + r.below(5) {
            let n = rnd_dir(r);
            txt += &format!("vn {:.4} {:.4} {:.4}\n", n[0], n[1], n[2]);
            nn += 1;
        }
        if r.chance(0.3) {
            txt += *r.pick(&["s off\n", "s 1\n", "usemtl wall\n", "# faces\n"]);
        }
        for _ in 0..r.below(12) {
            let n = 3 + r.below(2);
            let style = r.below(4);
            let mut f = vec![];
            while f.len() < n {
                let i = r.below(nv);
                if !f.contains(&i) {
                    f.push(i);
                }
            }
            txt += "f";
            for i in &f {
                let (t, n) = (1 + r.below(nt), 1 + r.below(nn));
                let i = if r.chance(0.1) && style == 0 {
                    *i as i64 - nv as i64
                } else {
                    *i as i64 + 1
                };
                txt += &match style {
                    0 => format!(" {}", i),
                    1 => format!(" {}/{}", i, t),
                    2 => format!(" {}//{}", i, n),
                    _ => format!(" {}/{}/{}", i, t, n),
                };
            }
            txt += "\n";
            exp.push([vs[f[0]], vs[f[1]], vs[f[2]]]);
            if n == 4 {
                exp.push([vs[f[0]], vs[f[2]], vs[f[3]]]);
            }
        }
    }
    c.desc(txt.clone());
    let mut s = Scene::new();
    let others = 1 + r.below(3);
    for i in 0..others {
        s.push_material(Material::Diffuse(Diffuse {
            colour: Spectrum::gray(0.1 * i as f64),
        }));
    }
    let (front, back) = (r.below(others), r.below(others));
    let mut before = 0;
    if r.chance(0.3) {
        let t = [rnd_pt(r, 1.), rnd_pt(r, 1.), rnd_pt(r, 1.)];
        if add_tri(&mut s, &t, 0, 0) {
            before = 1;
        }
    }
    if r.chance(0.3) {
        let f = scratch(".obj");
        std::fs::write(&f, &txt).map_err(|e| Fail::Inconclusive(format!("{}", e)))?;
        s.add_from_obj(f.clone(), front, back);
        let _ = std::fs::remove_file(&f);
    } else {
        s.add_from_obj_source(txt.as_bytes(), front, back);
    }
    let mut at = before;
    for t in &exp {
        let (a, b) = (sub(t[1], t[0]), sub(t[2], t[0]));
        let area = len(cross(a, b)) / 2.;
        let got = s.triangles.get(at).map(tri_of);
        let same = got
            .map(|g| (0..3).all(|i| len(sub(g[i], t[i])) < 1e-6 * size))
            .unwrap_or(false);
        if !same && area < 1e-3 {
            // too thin
            continue;
        }
        ensure!(same, "triangle {} is {:?}, not {:?}", at, got, t);
        ensure!(
            s.front_material_indexes[at] == front && s.back_material_indexes[at] == back,
            "triangle {} is of materials {} {} and not {} {}",
            at,
            s.front_material_indexes[at],
            s.back_material_indexes[at],
            front,
            back
        );
        at += 1;
        c.event("triangles", 1);
    }
    ensure!(
        at == s.triangles.len()
            && at == s.normals.len()
            && at == s.front_material_indexes.len()
            && at == s.back_material_indexes.len(),
        "there are {} triangles, {} normals, {} materials; the file has {}",
        s.triangles.len(),
        s.normals.len(),
        s.front_material_indexes.len(),
        at
    );
    c.seen(&txt);
    Ok(())
}

pub static PROPS: &[&Prop] = &[
    &Prop {
    id: "N01",
    rule: "random scenes (loose triangles, axis-aligned rooms with furniture, meshes, repeated triangles, rows of shrinking things, spheres) and rays (aligned with axes or planes, from surfaces, towards surfaces, any): what the ray hits, where, which side and its axes, and whether there is something before a distance, against trying every triangle. Non-trivial: distinct (kind of scene, triangle, side, distance).",
    assumptions: &["crossings within 1e-9 of the edges or the origin of the ray may go either way", "surfaces closer than 2 mm to the origin, or seen at less than 0.06 degrees, need not be seen"],
    workloads: &[wl("nearest", 3000, 40000, nearest).need(&[("hits", 20000), ("misses", 2000), ("obstructed", 20000), ("free", 20000)])],
},
    &Prop {
        id: "N03",
        rule: "materials of every kind seen from any direction through any frame: what they reflect and transmit by sampling directions against what they are made of and against evaluating every direction; geometry of reflections and refractions; reciprocity. Non-trivial: distinct (material, direction, reflectance).",
        assumptions: &["roughness of at least 0.05", "Monte Carlo: tolerances of 6 standard deviations, and judged after four failures"],
        workloads: &[wl("scattering", 500, 5000, scattering_).need(&[("reflected", 100000), ("transmitted", 50000), ("integrated", 30)])],
    },
    &Prop {
        id: "N04",
        rule: "samples of triangles, discs, hemispheres, spheres and what is tilted are counted in cells that are equally likely; directions aimed at triangle, sphere and distant lights against their solid angles, their first moments and, for spheres, evenness. Non-trivial: distinct (sampler, counts).",
        assumptions: &["Monte Carlo: 6 standard deviations, and judged after four failures", "distant lights of at most 8 degrees"],
        workloads: &[
            wl("samplers", 500, 8000, samplers_).need(&[("samples", 1000000)]),
            wl("aiming", 800, 10000, aiming_).need(&[("triangles", 20), ("spheres", 40), ("distant", 40)]),
        ],
    },
    &Prop {
        id: "N05",
        rule: "random images and matrices (including dark, bright, powers of two, and tiny values) are written and read; then cut or damaged and read again; averages, luminances and differences against their definitions. Non-trivial: distinct (size, contents).",
        assumptions: &["images keep the brightest channel of each pixel within 1/127"],
        workloads: &[
            wl("images", 300, 5000, images).need(&[("pixels", 50000), ("refused", 1000)]),
            wl("matrices", 600, 10000, matrices).need(&[("matrices", 600), ("refused", 2000)]),
        ],
    },
    &Prop {
        id: "N06",
        rule: "values below, at, between and above the ends of random scales, against interpolating the table of colours; images in false colour are written. Non-trivial: distinct (scale, position).",
        assumptions: &[],
        workloads: &[wl("scales", 500, 10000, scales).need(&[("colours", 50000), ("false colour", 50)])],
    },
    &Prop {
        id: "N08",
        rule: "random pinhole cameras: direction of the ray of each pixel against the field of view, back to the pixel, and pixels of any other direction, in sight or not. Non-trivial: distinct (resolution, pixel).",
        assumptions: &["directions within 1e-6 of the border of the image may be in or out"],
        workloads: &[wl("cameras", 8000, 100000, cameras).need(&[("pixels", 50000), ("out of sight", 5000), ("in sight", 5000)])],
    },
    &Prop {
        id: "N11",
        rule: "light traced in random scenes: things that do not absorb under a uniform sky; anything flat under skies that vary; triangle, sphere and distant lights on diffuse surfaces, against their configuration factors; rooms with lights, mirrors and furniture, against an independent path tracer; every pixel of rendered images. Non-trivial: distinct (scene, result).",
        assumptions: &["Monte Carlo: 6 standard deviations, and judged after four failures", "lights aimed at with a single shadow sample are small"],
        workloads: &[
            wl("furnace", 300, 4000, furnace).need(&[("met", 600)]),
            wl("under_sky", 200, 2000, under_sky_).need(&[("surfaces", 60)]),
            wl("lights", 400, 5000, lights_).need(&[("lights", 100), ("hidden", 10), ("direct", 20), ("bounces", 20), ("centre", 20), ("spread", 20)]),
            wl("rooms", 150, 1500, rooms_).need(&[("rooms", 40), ("precise", 60)]),
            wl("pictures", 300, 3000, pictures).need(&[("things", 5000), ("sky", 5000)]),
        ],
    },
    &Prop {
        id: "N07",
        rule: "daylight coefficients of random sensors, in the open (each patch against its projected solid angle) and in rooms with openings, furniture, mirrors and lights: times a random sky, against following every path; surfaces of any slope under the sky and sun of Perez, at any place and time. Non-trivial: distinct (subdivision, bounces, result).",
        assumptions: &["Monte Carlo: 6 standard deviations, and judged after four failures", "skies within 0.001 of a change of category are not judged"],
        workloads: &[
            wl("suns", 400, 5000, suns_).need(&[("sunny", 40), ("zenith", 4), ("night", 5)]),
            wl("coefficients", 60, 1000, coefficients_).need(&[("empty", 20), ("sensors", 100), ("precise", 200)]),
        ],
    },
    &Prop {
        id: "N09",
        rule: "random Radiance files (materials of every kind, some defined again, polygons, spheres, distant sources; any spacing and notation of numbers), from memory or a file: materials and their values and order, what covers each polygon and where it faces, spheres, lights and their angles. Non-trivial: distinct files.",
        assumptions: &["only valid files, without comments, of the kinds that are supported"],
        workloads: &[wl("radiance", 4000, 60000, radiance).need(&[("materials", 3000), ("polygons", 1000), ("spheres", 500), ("sources", 100), ("defined again", 100)])],
    },
    &Prop {
        id: "N10",
        rule: "random OBJ files (faces of three or four vertices with or without textures and normals, groups, negative indices, several notations of numbers), from memory or a file: every triangle, its corners in order, and its materials. Non-trivial: distinct files.",
        assumptions: &["faces of up to four vertices", "single precision", "triangles of less than 0.001 may be left out"],
        workloads: &[wl("objects", 5000, 100000, objects).need(&[("triangles", 10000)])],
    },
];
