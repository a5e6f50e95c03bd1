//! Primitives: ray intersections, bounding boxes, transforms, interval arithmetic
use super::geo::{rnd_axes, rnd_dir};
use crate::core::*;
use crate::ensure;
use geometry::intersection::{IntersectionInfo, SurfaceSide};
use geometry::{BBox3D, Cylinder3D, Disk3D, DistantSource3D, Plane3D, Point3D, Ray3D, Segment3D, Sphere3D, Transform, Triangle3D, Vector3D};
use std::f64::consts::{PI, TAU};
#[cfg(feature = "par")]
use std::sync::Arc as RefCount;
#[cfg(not(feature = "par"))]
use std::rc::Rc as RefCount;

pub type V = [f64; 3];
pub fn v3(p: Point3D) -> V {
    [p.x, p.y, p.z]
}
fn vv(p: Vector3D) -> V {
    [p.x, p.y, p.z]
}
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn add(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn mul(a: V, s: f64) -> V {
    [a[0] * s, a[1] * s, a[2] * s]
}
fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn len(a: V) -> f64 {
    dot(a, a).sqrt()
}
fn unit(a: V) -> V {
    mul(a, 1. / len(a))
}

/// reference affine map: p -> M p + t, with its inverse, built step by step
#[derive(Clone, Debug)]
struct Aff {
    m: [V; 3],
    t: V,
}
impl Aff {
    fn id() -> Self {
        Aff { m: [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], t: [0.; 3] }
    }
    fn lin(&self, p: V) -> V {
        [dot(self.m[0], p), dot(self.m[1], p), dot(self.m[2], p)]
    }
    fn pt(&self, p: V) -> V {
        add(self.lin(p), self.t)
    }
    /// self after other: x -> self(other(x))
    fn then(&self, o: &Aff) -> Aff {
        let col = |j: usize| self.lin([o.m[0][j], o.m[1][j], o.m[2][j]]);
        let (a, b, c) = (col(0), col(1), col(2));
        Aff { m: [[a[0], b[0], c[0]], [a[1], b[1], c[1]], [a[2], b[2], c[2]]], t: self.pt(o.t) }
    }
    fn det(&self) -> f64 {
        dot(self.m[0], cross(self.m[1], self.m[2]))
    }
    fn inv_lin(&self, p: V) -> V {
        let d = self.det();
        let (r0, r1, r2) = (self.m[0], self.m[1], self.m[2]);
        let c0 = cross(r1, r2);
        let c1 = cross(r2, r0);
        let c2 = cross(r0, r1);
        // columns of the inverse are c0,c1,c2 / d
        mul(add(add(mul(c0, p[0]), mul(c1, p[1])), mul(c2, p[2])), 1. / d)
    }
    fn inv_pt(&self, p: V) -> V {
        self.inv_lin(sub(p, self.t))
    }
    /// normals: inverse transpose
    fn normal(&self, n: V) -> V {
        let d = self.det();
        let (r0, r1, r2) = (self.m[0], self.m[1], self.m[2]);
        let c0 = cross(r1, r2);
        let c1 = cross(r2, r0);
        let c2 = cross(r0, r1);
        mul([dot(c0, n), dot(c1, n), dot(c2, n)], 1. / d)
    }
}
fn rot(axis: usize, deg: f64) -> Aff {
    let (s, c) = deg.to_radians().sin_cos();
    let mut a = Aff::id();
    let (i, j) = [(1, 2), (2, 0), (0, 1)][axis];
    a.m[i][i] = c;
    a.m[i][j] = -s;
    a.m[j][i] = s;
    a.m[j][j] = c;
    a
}
/// a random transform made of `n` steps, with its reference
fn rnd_transform(r: &mut Rng, n: usize, scale: bool) -> (Transform, Aff, String) {
    let mut t = Transform::new();
    let mut a = Aff::id();
    let mut d = String::new();
    for _ in 0..n {
        let (s, b) = rnd_step(r, scale, &mut d);
        t *= s;
        a = a.then(&b);
    }
    (t, a, d)
}
fn rnd_step(r: &mut Rng, scale: bool, d: &mut String) -> (Transform, Aff) {
    match r.below(if scale { 5 } else { 4 }) {
        0 => {
            let v = [r.normal() * 5., r.normal() * 5., r.normal() * 5.];
            d.push_str(&format!("T{:?}", v));
            (Transform::translate(v[0], v[1], v[2]), Aff { t: v, ..Aff::id() })
        }
        k @ 1..=3 => {
            let g = if r.chance(0.3) { *r.pick(&[90., -90., 180., 45., 0., 270., 360.]) } else { r.range(-360., 360.) };
            d.push_str(&format!("R{}({})", ["x", "y", "z"][k - 1], g));
            let t = match k {
                1 => Transform::rotate_x(g),
                2 => Transform::rotate_y(g),
                _ => Transform::rotate_z(g),
            };
            (t, rot(k - 1, g))
        }
        _ => {
            let mut f = || {
                let s = r.logu(0.2, 5.);
                if r.chance(0.3) {
                    -s
                } else {
                    s
                }
            };
            let s = [f(), f(), f()];
            d.push_str(&format!("S{:?}", s));
            let mut a = Aff::id();
            for i in 0..3 {
                a.m[i][i] = s[i];
            }
            (Transform::scale(s[0], s[1], s[2]), a)
        }
    }
}
fn pt(v: V) -> Point3D {
    Point3D::new(v[0], v[1], v[2])
}
fn vc(v: V) -> Vector3D {
    Vector3D::new(v[0], v[1], v[2])
}
fn rnd_v(r: &mut Rng, s: f64) -> V {
    [r.normal() * s, r.normal() * s, r.normal() * s]
}

fn transforms(c: &mut Case) -> R {
    let n = 1 + c.rng.below(5);
    let (t, a, d) = rnd_transform(&mut c.rng, n, true);
    c.desc(d.clone());
    let kinds: String = d.chars().filter(|x| "TRS".contains(*x)).collect();
    c.seen(&format!("{} {}", kinds, t.changes_hands()));
    let nrm = |x: V| 1. + len(x);
    let mag = a.m.iter().map(|r| len(*r)).sum::<f64>() + len(a.t);
    let invmag = (0..3).map(|i| { let mut e = [0.; 3]; e[i] = 1.; len(a.inv_lin(e)) }).sum::<f64>();
    for _ in 0..6 {
        let p = rnd_v(&mut c.rng, 10.);
        let q = v3(t.transform_pt(pt(p)));
        ensure!(len(sub(q, a.pt(p))) < 1e-11 * mag * nrm(p), "point {:?} goes to {:?} instead of {:?}", p, q, a.pt(p));
        let back = v3(t.inv_transform_pt(pt(q)));
        ensure!(len(sub(back, p)) < 1e-10 * (1. + mag) * (1. + invmag) * nrm(p), "the inverse sends {:?} back to {:?} instead of {:?}", q, back, p);
        let iq = v3(t.inv_transform_pt(pt(p)));
        ensure!(len(sub(iq, a.inv_pt(p))) < 1e-10 * (1. + mag) * (1. + invmag) * nrm(p), "the inverse sends {:?} to {:?} instead of {:?}", p, iq, a.inv_pt(p));
        let v = vv(t.transform_vec(vc(p)));
        ensure!(len(sub(v, a.lin(p))) < 1e-11 * mag * nrm(p), "vector {:?} goes to {:?} instead of {:?}", p, v, a.lin(p));
        let bv = vv(t.inv_transform_vec(vc(v)));
        ensure!(len(sub(bv, p)) < 1e-10 * (1. + mag) * (1. + invmag) * nrm(p), "vector {:?} comes back as {:?}", p, bv);
        // normals stay perpendicular to the transformed tangents and the round trip is the identity
        let (u, w) = rnd_axes(&mut c.rng);
        let nn = u.cross(w);
        let n2 = t.transform_normal(nn);
        let (u2, w2) = (t.transform_vec(u), t.transform_vec(w));
        ensure!((n2 * u2).abs() < 1e-9 * (1. + n2.length() * u2.length()) && (n2 * w2).abs() < 1e-9 * (1. + n2.length() * w2.length()), "the transformed normal is not perpendicular to the transformed surface");
        ensure!((vc(a.normal(vv(nn))) - n2).length() < 1e-9 * (1. + n2.length()), "normal {} goes to {}", nn, n2);
        let n3 = t.inv_transform_normal(n2);
        ensure!((n3 - nn).length() < 1e-9 * (1. + mag) * (1. + invmag), "a normal does not survive the round trip");
        // error bounds contain the error
        let (qe, e) = t.transform_pt_with_error(pt(p));
        ensure!(qe.x == q[0] && qe.y == q[1] && qe.z == q[2], "transform_pt_with_error disagrees with transform_pt");
        ensure!(e.x >= 0. && e.y >= 0. && e.z >= 0. && e.x < 1e-12 * mag * nrm(p), "error bound {:?}", e);
        // rays: origin is moved only along the ray
        let ray = Ray3D { origin: pt(p), direction: rnd_dir(&mut c.rng) };
        let (r2, ..) = t.transform_ray(&ray);
        ensure!(len(sub(vv(r2.direction), a.lin(vv(ray.direction)))) < 1e-11 * mag, "ray direction");
        ensure!(len(sub(v3(r2.origin), a.pt(p))) < 1e-9 * mag * nrm(p), "ray origin {} instead of {:?}", r2.origin, a.pt(p));
        let (r3, ..) = t.inv_transform_ray(&r2);
        ensure!(r3.origin.distance(ray.origin) < 1e-8 * (1. + mag) * (1. + invmag) * nrm(p) && (r3.direction - ray.direction).length() < 1e-9 * (1. + mag) * (1. + invmag), "a ray does not survive the round trip");
        c.event("points", 1);
    }
    ensure!(t.changes_hands() == (a.det() < 0.), "changes_hands is {} for a determinant of {}", t.changes_hands(), a.det());
    // bounding boxes contain the image of every point of the box, tightly
    let b = BBox3D::new(pt(rnd_v(&mut c.rng, 3.)), pt(rnd_v(&mut c.rng, 3.)));
    for inv in [false, true] {
        let b2 = if inv { t.inv_transform_bbox(b) } else { t.transform_bbox(b) };
        let f = |p: V| if inv { a.inv_pt(p) } else { a.pt(p) };
        let tol = 1e-9 * (1. + mag) * (1. + invmag) * 20.;
        let (mut lo, mut hi) = ([f64::MAX; 3], [f64::MIN; 3]);
        for i in 0..8 {
            let q = f([if i & 1 > 0 { b.max.x } else { b.min.x }, if i & 2 > 0 { b.max.y } else { b.min.y }, if i & 4 > 0 { b.max.z } else { b.min.z }]);
            for k in 0..3 {
                lo[k] = q[k].min(lo[k]);
                hi[k] = q[k].max(hi[k]);
            }
        }
        ensure!(len(sub(lo, v3(b2.min))) < tol && len(sub(hi, v3(b2.max))) < tol, "the transformed bounding box is {:?} instead of {:?}..{:?}", b2, lo, hi);
        c.event("boxes", 1);
    }
    Ok(())
}

/// sum of products, much more precisely than doubles, minus a value
fn residual(terms: &[(f64, f64)], value: f64) -> f64 {
    let (mut hi, mut lo) = (-value, 0.);
    let two_sum = |a: f64, b: f64| {
        let s = a + b;
        let bb = s - a;
        (s, (a - (s - bb)) + (b - bb))
    };
    for (a, b) in terms {
        let p = a * b;
        let e = a.mul_add(*b, -p);
        let (s, e2) = two_sum(hi, p);
        hi = s;
        lo += e + e2;
    }
    hi + lo
}
/// what is reported as error contains the error, and is not much more than that
fn errors(c: &mut Case) -> R {
    let n = 1 + c.rng.below(5);
    let (t, _, d) = rnd_transform(&mut c.rng, n, true);
    let mut own = c.rng.clone();
    let r = &mut own;
    c.desc(d.clone());
    for inv in [false, true] {
        // the matrix, exactly
        let col = |i: usize| {
            let mut e = [0.; 3];
            e[i] = 1.;
            vv(if inv { t.inv_transform_vec(vc(e)) } else { t.transform_vec(vc(e)) })
        };
        let m = [col(0), col(1), col(2)];
        let o = v3(if inv { t.inv_transform_pt(pt([0.; 3])) } else { t.transform_pt(pt([0.; 3])) });
        for _ in 0..6 {
            let mag = r.logu(1e-3, 1e3);
            let p = rnd_v(r, mag);
            let k = r.logu(1e-12, 1e-1);
            let e = if r.chance(0.2) { [0.; 3] } else { [r.f() * k, r.f() * k, r.f() * k] };
            // anywhere within the error
            let q = [0, 1, 2].map(|i| p[i] + e[i] * r.range(-1., 1.));
            let q = [0, 1, 2].map(|i| if (q[i] - p[i]).abs() <= e[i] { q[i] } else { p[i] });
            for point in [true, false] {
                let (got, err) = match (point, inv) {
                    (true, false) => { let (a, b) = t.transform_pt_propagate_error(pt(p), pt(e)); (v3(a), v3(b)) }
                    (true, true) => { let (a, b) = t.inv_transform_pt_propagate_error(pt(p), pt(e)); (v3(a), v3(b)) }
                    (false, false) => { let (a, b) = t.transform_vec_propagate_error(vc(p), pt(e)); (vv(a), v3(b)) }
                    (false, true) => { let (a, b) = t.inv_transform_vec_propagate_error(vc(p), pt(e)); (vv(a), v3(b)) }
                };
                let (got0, err0) = match (point, inv) {
                    (true, false) => { let (a, b) = t.transform_pt_with_error(pt(p)); (v3(a), v3(b)) }
                    (true, true) => { let (a, b) = t.inv_transform_pt_with_error(pt(p)); (v3(a), v3(b)) }
                    (false, false) => { let (a, b) = t.transform_vec_with_error(vc(p)); (vv(a), v3(b)) }
                    (false, true) => { let (a, b) = t.inv_transform_vec_with_error(vc(p)); (vv(a), v3(b)) }
                };
                ensure!(got == got0, "with an error, {:?} goes to {:?} instead of {:?}", p, got, got0);
                for i in 0..3 {
                    let at = |x: V| residual(&[(m[0][i], x[0]), (m[1][i], x[1]), (m[2][i], x[2]), (if point { o[i] } else { 0. }, 1.)], got[i]).abs();
                    let size = (m[0][i] * p[0]).abs() + (m[1][i] * p[1]).abs() + (m[2][i] * p[2]).abs() + o[i].abs();
                    ensure!(at(p) <= err0[i] * (1. + 1e-9) + 1e-300, "component {} of the image of {:?} is {} away, and its error was said to be {}", i, p, at(p), err0[i]);
                    ensure!(err0[i] <= 1e-14 * size, "the error of component {} of the image of {:?} was said to be {}, for something of size {}", i, p, err0[i], size);
                    ensure!(at(q) <= err[i] * (1. + 1e-9) + 1e-300, "{:?} is within {:?} of {:?}, but component {} of its image is {} away instead of {}", q, e, p, i, at(q), err[i]);
                    let lin = (m[0][i] * e[0]).abs() + (m[1][i] * e[1]).abs() + (m[2][i] * e[2]).abs();
                    ensure!(err[i] <= lin * 1.0001 + 1e-14 * size, "an error of {:?} became {} in component {}, when it should be {}", e, err[i], i, lin);
                }
            }
            // rays start a bit further, not more than the error
            let ray = Ray3D { origin: pt(p), direction: rnd_dir(r) };
            let (r2, oe, de) = if inv { t.inv_transform_ray_propagate_error(&ray, pt(e), pt(e)) } else { t.transform_ray_propagate_error(&ray, pt(e), pt(e)) };
            let (o2, oe2) = if inv { t.inv_transform_pt_propagate_error(pt(p), pt(e)) } else { t.transform_pt_propagate_error(pt(p), pt(e)) };
            let (d2, de2) = if inv { t.inv_transform_vec_propagate_error(ray.direction, pt(e)) } else { t.transform_vec_propagate_error(ray.direction, pt(e)) };
            ensure!(v3(oe) == v3(oe2) && v3(de) == v3(de2), "the errors of a ray are {:?} {:?} instead of {:?} {:?}", oe, de, oe2, de2);
            ensure!(vv(r2.direction) == vv(d2), "the direction of a ray is {} instead of {}", r2.direction, d2);
            let gap = sub(v3(r2.origin), v3(o2));
            let ahead = dot(gap, unit(vv(d2)));
            let tol = 1e-12 * (1. + len(v3(o2)));
            ensure!(len(cross(gap, unit(vv(d2)))) < tol, "the origin of a ray moved aside by {:?}", gap);
            ensure!(ahead > -tol && ahead <= 2. * len(v3(oe)) + tol, "the origin of a ray moved by {} for an error of {:?}", ahead, oe);
            c.event("bounds", 1);
        }
    }
    let kinds: String = d.chars().filter(|x| "TRS".contains(*x)).collect();
    c.seen(&format!("{} {}", kinds, t.changes_hands()));
    Ok(())
}

/* ---------- rays against primitives ---------- */

/// hit candidate in local coordinates; margin = distance (in parameter space) to where the answer changes
enum Exp {
    Hit(V),
    Miss,
    Skip,
}

fn quad(a: f64, b: f64, cc: f64) -> Option<(f64, f64)> {
    let d = b * b - 4. * a * cc;
    if d < 0. {
        return None;
    }
    let q = -0.5 * (b + b.signum() * d.sqrt());
    let (x, y) = (q / a, cc / q);
    Some(if x < y { (x, y) } else { (y, x) })
}

struct Round {
    sphere: bool,
    r: f64,
    zmin: f64,
    zmax: f64,
    phi: f64,
}
impl Round {
    fn hit(&self, o: V, d: V) -> Exp {
        let (od, dd) = if self.sphere { (o, d) } else { ([o[0], o[1], 0.], [d[0], d[1], 0.]) };
        let a = dot(dd, dd);
        if a < 1e-6 * dot(d, d) {
            return Exp::Skip;
        }
        let b = 2. * dot(od, dd);
        let cc = dot(od, od) - self.r * self.r;
        // closest approach vs radius: grazing rays are not judged
        let tc = -b / (2. * a);
        let dmin = len(add(od, mul(dd, tc)));
        if (dmin - self.r).abs() < 1e-4 * self.r {
            return Exp::Skip;
        }
        if (len(od) - self.r).abs() < 1e-4 * self.r {
            return Exp::Skip;
        }
        let (t0, t1) = match quad(a, b, cc) {
            None => return Exp::Miss,
            Some(x) => x,
        };
        for t in [t0, t1] {
            if t <= 0. {
                continue;
            }
            let p = add(o, mul(d, t));
            let m = 1e-4 * self.r.max(self.zmax - self.zmin);
            let zl = self.zmin > -self.r || !self.sphere;
            let zu = self.zmax < self.r || !self.sphere;
            if (zl && (p[2] - self.zmin).abs() < m) || (zu && (p[2] - self.zmax).abs() < m) {
                return Exp::Skip;
            }
            let full = self.phi > TAU - 1e-9;
            let mut phi = p[1].atan2(p[0]);
            if phi < 0. {
                phi += TAU;
            }
            let rho = (p[0] * p[0] + p[1] * p[1]).sqrt();
            if !full && (rho < 1e-3 * self.r || phi < 1e-4 || phi > TAU - 1e-4 || (phi - self.phi).abs() < 1e-4) {
                return Exp::Skip;
            }
            let ok = !(zl && p[2] < self.zmin) && !(zu && p[2] > self.zmax) && (full || phi < self.phi);
            if ok {
                return Exp::Hit(p);
            }
        }
        Exp::Miss
    }
}

fn compare_hit(c: &mut Case, what: &str, e: Exp, info: Option<IntersectionInfo>, simple: Option<Point3D>, a: &Aff, ray: &Ray3D, n: impl Fn(V) -> V, tol: f64, reach: f64) -> R {
    let exp = match e {
        Exp::Skip => {
            c.event("skipped", 1);
            return Ok(());
        }
        Exp::Miss => {
            ensure!(info.is_none(), "{}: ray {:?} {:?} reported to hit at {:?}, but it misses", what, v3(ray.origin), vv(ray.direction), info.map(|i| v3(i.p)));
            ensure!(simple.is_none(), "{}: the quick test reports a hit and the complete one does not", what);
            c.event("misses", 1);
            return Ok(());
        }
        Exp::Hit(p) => p,
    };
    let w = a.pt(exp);
    let i = match info {
        Some(i) => i,
        None => return Err(Fail::Bad(format!("{}: ray {:?} {:?} should hit at {:?}", what, v3(ray.origin), vv(ray.direction), w))),
    };
    let s = match simple {
        Some(i) => i,
        None => return Err(Fail::Bad(format!("{}: the quick test misses", what))),
    };
    ensure!(len(sub(v3(i.p), w)) < tol * reach, "{}: hit at {} instead of {:?}", what, i.p, w);
    ensure!(len(sub(v3(s), w)) < tol * reach, "{}: quick hit at {} instead of {:?}", what, s, w);
    // the normal is that of the surface, on the side of the ray's origin
    let nn = unit(a.normal(n(exp)));
    let side = dot(nn, vv(ray.direction));
    if side.abs() > 1e-3 * ray.direction.length() {
        let facing = if side < 0. { nn } else { mul(nn, -1.) };
        let got = unit(vv(i.normal));
        ensure!(len(sub(got, facing)) < 1e-3, "{}: normal {:?} instead of {:?}", what, got, facing);
        ensure!(i.side != SurfaceSide::NonApplicable, "{}: side not known", what);
        c.event(if i.side == SurfaceSide::Front { "front" } else { "back" }, 1);
    }
    c.event("hits", 1);
    Ok(())
}
fn rnd_ray(r: &mut Rng, scale: f64, a: &Aff) -> Ray3D {
    // aimed at a random point of the neighbourhood, from outside or from inside
    let inside = r.chance(0.3);
    let o = mul(rnd_v(r, 1.), scale * if inside { 0.4 } else { 3. });
    let tgt = mul(rnd_v(r, 0.7), scale);
    let mut d = sub(tgt, o);
    if r.chance(0.15) {
        // axis aligned
        let k = r.below(3);
        let s = d[k].signum();
        d = [0.; 3];
        d[k] = s;
    }
    if len(d) < 1e-9 {
        d = [1., 0., 0.];
    }
    let o = a.pt(o);
    let d = unit(a.lin(d));
    Ray3D { origin: pt(o), direction: vc(d) }
}

fn round(c: &mut Case) -> R {
    let sphere = c.rng.chance(0.5);
    let r = c.rng.logu(0.05, 50.);
    let partial = c.rng.chance(0.5);
    let phi_deg = if partial && c.rng.chance(0.6) { c.rng.range(20., 350.) } else { 360. };
    let (mut zmin, mut zmax) = if sphere { (-2. * r, 2. * r) } else { (0., r * c.rng.range(0.3, 5.)) };
    if partial && sphere {
        zmin = r * c.rng.range(-1.2, 0.3);
        zmax = r * c.rng.range(0.4, 1.3);
    }
    let mut a = Aff::id();
    let mut desc = format!("{} r={} z={}..{} phi={} ", if sphere { "sphere" } else { "cylinder" }, r, zmin, zmax, phi_deg);
    let mode;
    enum P {
        S(Sphere3D),
        C(Cylinder3D),
    }
    let prim = if c.rng.chance(0.4) {
        mode = "transformed";
        let n = 1 + c.rng.below(4);
        let (t, b, d) = rnd_transform(&mut c.rng, n, false);
        a = b;
        desc.push_str(&d);
        if sphere {
            P::S(Sphere3D::new_partial_transformed(r, zmin, zmax, phi_deg, Some(RefCount::new(t))))
        } else {
            zmin = r * c.rng.range(-1.5, 0.);
            P::C(Cylinder3D::new_transformed(r, zmin, zmax, phi_deg, Some(RefCount::new(t))))
        }
    } else if sphere {
        mode = "centre";
        let ce = if c.rng.chance(0.2) { [0.; 3] } else { rnd_v(&mut c.rng, 10.) };
        a.t = ce;
        desc.push_str(&format!("centre {:?}", ce));
        P::S(if partial { Sphere3D::new_partial(r, pt(ce), zmin, zmax, phi_deg) } else { Sphere3D::new(r, pt(ce)) })
    } else {
        // between two points, in every direction
        mode = "two points";
        let p0 = rnd_v(&mut c.rng, 10.);
        let dir = if c.rng.chance(0.3) {
            let k = c.rng.below(3);
            let mut v = [0.; 3];
            v[k] = if c.rng.chance(0.5) { 1. } else { -1. };
            v
        } else {
            vv(rnd_dir(&mut c.rng))
        };
        let l = zmax;
        let p1 = add(p0, mul(dir, l));
        desc.push_str(&format!("from {:?} to {:?}", p0, p1));
        // any frame whose z axis is the axis: only full cylinders are compared in this mode
        let z = dir;
        let x = unit(if z[0].abs() < 0.7 { cross([1., 0., 0.], z) } else { cross([0., 1., 0.], z) });
        let y = cross(z, x);
        a = Aff { m: [[x[0], y[0], z[0]], [x[1], y[1], z[1]], [x[2], y[2], z[2]]], t: p0 };
        P::C(Cylinder3D::new(pt(p0), pt(p1), r))
    };
    let phi = if mode == "two points" { TAU } else { phi_deg.to_radians() };
    let rf = Round { sphere, r, zmin: if sphere { zmin.max(-r) } else { zmin }, zmax: if sphere { zmax.min(r) } else { zmax }, phi };
    c.desc(desc);
    c.seen(&format!("{} {} {} {:.1} {:.1} {:.0} {:.2}", sphere, mode, partial, rf.zmin / r, rf.zmax / r, phi_deg, r));
    // area: closed form
    let area = match &prim {
        P::S(s) => s.area(),
        P::C(s) => s.area(),
    };
    ensure!((area - phi * r * (rf.zmax - rf.zmin)).abs() < 1e-9 * (1. + area), "area {} instead of {}", area, phi * r * (rf.zmax - rf.zmin));
    let wb = match &prim {
        P::S(s) => s.world_bounds(),
        P::C(s) => s.world_bounds(),
    };
    for _ in 0..12 {
        let ray = rnd_ray(&mut c.rng, r.max(if sphere { 0. } else { zmax * 0.5 }), &a);
        let o = a.inv_pt(v3(ray.origin));
        let d = a.inv_lin(vv(ray.direction));
        let e = rf.hit(o, d);
        let reach = 1. + len(v3(ray.origin)) + r + zmax.abs();
        let (info, simple) = match &prim {
            P::S(s) => (s.intersect(&ray), s.simple_intersect(&ray)),
            P::C(s) => (s.intersect(&ray), s.simple_intersect(&ray)),
        };
        if let Some(i) = &info {
            let m = 1e-6 * reach + 2e-5 * r;
            ensure!(i.p.x > wb.min.x - m && i.p.y > wb.min.y - m && i.p.z > wb.min.z - m && i.p.x < wb.max.x + m && i.p.y < wb.max.y + m && i.p.z < wb.max.z + m, "the hit {} is out of the bounding box {:?}", i.p, wb);
        }
        compare_hit(c, if sphere { "sphere" } else { "cylinder" }, e, info, simple, &a, &ray, |p| if sphere { p } else { [p[0], p[1], 0.] }, if sphere { 2e-5 } else { 1e-6 }, reach)?;
    }
    Ok(())
}

fn flat(c: &mut Case) -> R {
    let (u, v) = rnd_axes(&mut c.rng);
    let (u, v) = if c.rng.chance(0.3) { (Vector3D::new(1., 0., 0.), Vector3D::new(0., 1., 0.)) } else { (u, v) };
    let n = u.cross(v);
    let o = rnd_v(&mut c.rng, 8.);
    let a = Aff { m: [[u.x, v.x, n.x], [u.y, v.y, n.y], [u.z, v.z, n.z]], t: o };
    let size = c.rng.logu(0.1, 20.);
    let kind = c.rng.below(3);
    // local 2-D predicate: Some(inside) or None when too close to the border
    type Pred = Box<dyn Fn(f64, f64) -> Option<bool>>;
    enum P {
        T(Triangle3D),
        D(Disk3D),
    }
    let desc;
    let (prim, pred, area): (P, Pred, f64) = if kind == 0 {
        let mut q;
        loop {
            q = [(c.rng.normal() * size, c.rng.normal() * size), (c.rng.normal() * size, c.rng.normal() * size), (c.rng.normal() * size, c.rng.normal() * size)];
            let ar = ((q[1].0 - q[0].0) * (q[2].1 - q[0].1) - (q[1].1 - q[0].1) * (q[2].0 - q[0].0)) / 2.;
            if ar > 0.2 * size * size {
                break;
            }
        }
        let ar = ((q[1].0 - q[0].0) * (q[2].1 - q[0].1) - (q[1].1 - q[0].1) * (q[2].0 - q[0].0)) / 2.;
        desc = format!("triangle {:?} in {:?}", q, a);
        let w: Vec<Point3D> = q.iter().map(|p| pt(a.pt([p.0, p.1, 0.]))).collect();
        let t = Triangle3D::new(w[0], w[1], w[2]).map_err(Fail::Bad)?;
        (
            P::T(t),
            Box::new(move |x, y| {
                let mut worst = f64::MAX;
                for i in 0..3 {
                    let (p, r) = (q[i], q[(i + 1) % 3]);
                    let l = ((r.0 - p.0).powi(2) + (r.1 - p.1).powi(2)).sqrt();
                    worst = worst.min(((r.0 - p.0) * (y - p.1) - (r.1 - p.1) * (x - p.0)) / l);
                }
                if worst.abs() < 1e-4 * size {
                    None
                } else {
                    Some(worst > 0.)
                }
            }),
            ar,
        )
    } else {
        let rad = size;
        let full = c.rng.chance(0.5);
        let inner = if full || c.rng.chance(0.4) { 0. } else { rad * c.rng.range(0.1, 0.9) };
        let phi_deg = if full || c.rng.chance(0.4) { 360. } else { c.rng.range(20., 350.) };
        let z = c.rng.range(0., TAU);
        let (zu, zv) = (z.cos(), z.sin());
        let pz = u * zu + v * zv;
        // phi_zero need not be perpendicular to the normal
        let pz_given = pz * c.rng.range(0.5, 3.) + n * c.rng.range(-0.4, 0.4);
        let via_transform = c.rng.chance(0.3);
        desc = format!("disk r={} inner={} phi_max={} full={} transform={} zero={:?} in {:?}", rad, inner, phi_deg, full, via_transform, pz_given, a);
        let d = if full {
            Disk3D::new(pt(o), n * c.rng.range(0.5, 4.), rad)
        } else if via_transform {
            let t = Transform::translate(o[0], o[1], o[2]);
            Disk3D::new_detailed(Point3D::new(0., 0., 0.), n, rad, inner, pz_given, phi_deg, Some(RefCount::new(t)))
        } else {
            Disk3D::new_detailed(pt(o), n, rad, inner, pz_given, phi_deg, None)
        };
        let pm = phi_deg.to_radians();
        (
            P::D(d),
            Box::new(move |x, y| {
                let r = (x * x + y * y).sqrt();
                let m = 1e-4 * rad;
                if (r - rad).abs() < m || (inner > 0. && (r - inner).abs() < m) {
                    return None;
                }
                if r > rad || r < inner {
                    return Some(false);
                }
                if phi_deg == 360. {
                    return Some(true);
                }
                // angle from phi zero, counter-clockwise around the normal
                let mut ph = (x * -zv + y * zu).atan2(x * zu + y * zv);
                if ph < 0. {
                    ph += TAU;
                }
                if ph < 1e-4 || ph > TAU - 1e-4 || (ph - pm).abs() < 1e-4 {
                    None
                } else {
                    Some(ph < pm)
                }
            }),
            pm / 2. * (rad * rad - inner * inner),
        )
    };
    c.desc(desc);
    c.seen(&format!("{} {:.2} {:.1} {:.1}", kind, size, n.z, n.x));
    let (got_area, wb) = match &prim {
        P::T(t) => (t.area(), t.world_bounds()),
        P::D(t) => (t.area(), t.world_bounds()),
    };
    ensure!((got_area - area).abs() < 1e-7 * (1. + area), "area {} instead of {}", got_area, area);
    for _ in 0..12 {
        let ray = rnd_ray(&mut c.rng, size, &a);
        let lo = a.inv_pt(v3(ray.origin));
        let ld = a.inv_lin(vv(ray.direction));
        let reach = 1. + len(v3(ray.origin)) + len(o) + size;
        let e = if ld[2].abs() < 1e-3 || lo[2].abs() < 1e-4 * size {
            Exp::Skip
        } else {
            let t = -lo[2] / ld[2];
            if t <= 0. {
                Exp::Miss
            } else {
                let p = add(lo, mul(ld, t));
                match pred(p[0], p[1]) {
                    None => Exp::Skip,
                    Some(true) => Exp::Hit([p[0], p[1], 0.]),
                    Some(false) => Exp::Miss,
                }
            }
        };
        // the plane alone
        let pl = Plane3D::new(pt(o), n);
        let t = pl.intersect(&ray);
        if ld[2].abs() > 1e-3 && lo[2].abs() > 1e-4 * size {
            let et = -lo[2] / ld[2];
            match t {
                Some(t) => ensure!(et > 0. && (t - et).abs() < 1e-7 * reach * (1. + et), "plane: t = {} instead of {}", t, et),
                None => ensure!(et <= 0., "plane: not hit, expected t = {}", et),
            }
        }
        let (info, simple) = match &prim {
            P::T(t) => (t.intersect(&ray), t.simple_intersect(&ray)),
            P::D(t) => (t.intersect(&ray), t.simple_intersect(&ray)),
        };
        if let Some(i) = &info {
            let m = 1e-6 * reach;
            ensure!(i.p.x > wb.min.x - m && i.p.y > wb.min.y - m && i.p.z > wb.min.z - m && i.p.x < wb.max.x + m && i.p.y < wb.max.y + m && i.p.z < wb.max.z + m, "the hit {} is out of the bounding box {:?}", i.p, wb);
        }
        if let Some(i) = &info {
            // flat surfaces: the side is that of the normal given by the right-hand rule
            let s = if n * ray.direction < 0. { SurfaceSide::Front } else { SurfaceSide::Back };
            if (n * ray.direction).abs() > 1e-3 {
                ensure!(i.side == s, "hit from the {:?} side instead of {:?}", i.side, s);
            }
        }
        compare_hit(c, if kind == 0 { "triangle" } else { "disk" }, e, info, simple, &a, &ray, |_| [0., 0., 1.], 1e-7, reach)?;
    }
    Ok(())
}

fn distant(c: &mut Case) -> R {
    let d = rnd_dir(&mut c.rng);
    let angle = c.rng.logu(0.005, 1.5);
    let len_ = c.rng.logu(0.1, 10.);
    let s = DistantSource3D::new(d * len_, angle);
    c.desc(format!("distant source towards {} of {} rad", d, angle));
    c.seen(&format!("{:.3} {:.2}", angle, d.z));
    ensure!((s.omega - PI * (angle / 2.).tan().powi(2)).abs() < 1e-9, "solid angle {}", s.omega);
    for _ in 0..10 {
        // a direction at a known angle from the source
        let k = c.rng.range(0., 1.) * if c.rng.chance(0.5) { angle } else { PI };
        let p = s.direction.get_perpendicular().map_err(Fail::Bad)?;
        let dir = d * k.cos() + p * k.sin();
        let ray = Ray3D { origin: pt(rnd_v(&mut c.rng, 10.)), direction: dir };
        if (k - angle / 2.).abs() < 1e-6 {
            continue;
        }
        let e = k < angle / 2.;
        ensure!(s.simple_intersect(&ray).is_some() == e, "a ray at {} rad of a source of {} rad: hit = {}", k, angle, !e);
        let f = s.intersect(&ray);
        ensure!(f.is_some() == e, "a ray at {} rad of a source of {} rad: hit = {}", k, angle, !e);
        c.event(if e { "seen" } else { "not_seen" }, 1);
    }
    Ok(())
}

/* ---------- bounding boxes ---------- */
fn boxes(c: &mut Case) -> R {
    let r = &mut c.rng;
    let s = r.logu(0.1, 100.);
    let mk = |r: &mut Rng| {
        let o = rnd_v(r, s);
        let mut d = [r.logu(0.01, 3.) * s, r.logu(0.01, 3.) * s, r.logu(0.01, 3.) * s];
        if r.chance(0.2) {
            d[r.below(3)] = 0.;
        }
        for x in d.iter_mut() {
            if r.chance(0.5) {
                *x = -*x
            }
        }
        (o, add(o, d))
    };
    let (a0, a1) = mk(r);
    let (b0, b1) = mk(r);
    let a = BBox3D::new(pt(a0), pt(a1));
    let b = BBox3D::new(pt(b0), pt(b1));
    let lo = |p: V, q: V| [p[0].min(q[0]), p[1].min(q[1]), p[2].min(q[2])];
    let hi = |p: V, q: V| [p[0].max(q[0]), p[1].max(q[1]), p[2].max(q[2])];
    let (al, ah, bl, bh) = (lo(a0, a1), hi(a0, a1), lo(b0, b1), hi(b0, b1));
    let desc = format!("boxes {:?} {:?} {:?} {:?}", a0, a1, b0, b1);
    ensure!(v3(a.min) == al && v3(a.max) == ah, "box of {:?} {:?} is {:?}", a0, a1, a);
    let u = BBox3D::from_union(&a, &b);
    ensure!(v3(u.min) == lo(al, bl) && v3(u.max) == hi(ah, bh), "union {:?}", u);
    let overlap = (0..3).all(|k| ah[k] >= bl[k] && al[k] <= bh[k]);
    ensure!(a.overlaps(&b) == overlap && b.overlaps(&a) == overlap, "overlaps = {}", !overlap);
    if overlap {
        let i = BBox3D::from_intersection(&a, &b);
        ensure!(v3(i.min) == hi(al, bl) && v3(i.max) == lo(ah, bh), "intersection {:?}", i);
    }
    let d = sub(ah, al);
    let sa = 2. * (d[0] * d[1] + d[1] * d[2] + d[0] * d[2]);
    ensure!((a.surface_area() - sa).abs() < 1e-9 * (1. + sa), "surface area {} instead of {}", a.surface_area(), sa);
    let me = match a.max_extent() {
        geometry::BBoxAxis::X => 0,
        geometry::BBoxAxis::Y => 1,
        geometry::BBoxAxis::Z => 2,
    };
    ensure!((0..3).all(|k| d[me] >= d[k]), "largest extent is {} of {:?}", me, d);
    let mut events: Vec<&'static str> = vec![];
    for _ in 0..12 {
        let p = add(al, [d[0] * r.range(-0.5, 1.5), d[1] * r.range(-0.5, 1.5), d[2] * r.range(-0.5, 1.5)]);
        let e = (0..3).all(|k| p[k] >= al[k] && p[k] <= ah[k]);
        ensure!(a.point_inside(pt(p)) == e, "point_inside {:?} = {}", p, !e);
        let up = BBox3D::from_union_point(&a, pt(p));
        ensure!(v3(up.min) == lo(al, p) && v3(up.max) == hi(ah, p), "union with a point");
        // a ray through an interior point must hit, whatever its direction
        let tgt = add(al, [d[0] * r.range(0.001, 0.999), d[1] * r.range(0.001, 0.999), d[2] * r.range(0.001, 0.999)]);
        let mut dir = vv(rnd_dir(r));
        if r.chance(0.4) {
            // axis parallel, with signed zeros
            let k = r.below(3);
            let s = if dir[k] > 0. { 1. } else { -1. };
            dir = [if r.chance(0.5) { 0. } else { -0. }, if r.chance(0.5) { 0. } else { -0. }, if r.chance(0.5) { 0. } else { -0. }];
            dir[k] = s;
        } else if r.chance(0.3) {
            let k = r.below(3);
            dir[k] = if r.chance(0.5) { 0. } else { -0. };
            dir = unit(dir);
        }
        // flat boxes: a ray within the plane of the box is not judged
        if (0..3).any(|k| d[k] < 1e-9 * s && dir[k].abs() < 1e-3) {
            continue;
        }
        let back = r.logu(1e-3, 10.) * s;
        let o = sub(tgt, mul(dir, back));
        let ray = Ray3D { origin: pt(o), direction: vc(dir) };
        let inv = Vector3D::new(1. / dir[0], 1. / dir[1], 1. / dir[2]);
        ensure!(a.intersect(ray, &inv), "ray from {:?} towards {:?} misses the box it crosses", o, dir);
        events.push("hits");
        // the opposite direction misses if the origin is clearly outside
        let out = (0..3).any(|k| o[k] < al[k] - 1e-6 * s || o[k] > ah[k] + 1e-6 * s);
        if out {
            let ray = Ray3D { origin: pt(o), direction: vc(mul(dir, -1.)) };
            let inv = Vector3D::new(-1. / dir[0], -1. / dir[1], -1. / dir[2]);
            ensure!(!a.intersect(ray, &inv), "ray from {:?} running away from the box hits it", o);
            events.push("misses");
        }
        // an arbitrary ray against an independent slab test with margins
        let o = add(al, rnd_v(r, 2. * s));
        let dir = vv(rnd_dir(r));
        let (mut t0, mut t1) = (0.0f64, f64::INFINITY);
        for k in 0..3 {
            let (x, y) = ((al[k] - o[k]) / dir[k], (ah[k] - o[k]) / dir[k]);
            t0 = t0.max(x.min(y));
            t1 = t1.min(x.max(y));
        }
        if (t1 - t0).abs() > 1e-9 * s && t1.abs() > 1e-9 * s {
            let ray = Ray3D { origin: pt(o), direction: vc(dir) };
            let inv = Vector3D::new(1. / dir[0], 1. / dir[1], 1. / dir[2]);
            ensure!(a.intersect(ray, &inv) == (t1 > t0), "ray from {:?} towards {:?}: box hit = {}", o, dir, t1 <= t0);
            events.push("random_rays");
        }
    }
    c.desc(desc);
    c.seen(&format!("{} {:.1} {:.1} {:.1} {}", overlap, d[0] / s, d[1] / s, d[2] / s, me));
    for e in events {
        c.event(e, 1);
    }
    Ok(())
}

/* ---------- segments ---------- */
fn segments(c: &mut Case) -> R {
    // two segments in a random plane, crossing (or not) at known fractions
    let (u, v) = rnd_axes(&mut c.rng);
    let o = pt(rnd_v(&mut c.rng, 5.));
    let at = |x: f64, y: f64| o + u * x + v * y;
    let (x, y) = (c.rng.range(-5., 5.), c.rng.range(-5., 5.));
    let (a1, a2) = loop {
        let (a, b) = (c.rng.range(0., TAU), c.rng.range(0., TAU));
        if (a - b).sin().abs() > 0.1 {
            break (a, b);
        }
    };
    let f = |r: &mut Rng| if r.chance(0.6) { r.range(0.05, 0.95) } else if r.chance(0.5) { r.range(-1.5, -0.05) } else { r.range(1.05, 2.5) };
    let (t1, t2) = (f(&mut c.rng), f(&mut c.rng));
    let (l1, l2) = (c.rng.range(0.5, 6.), c.rng.range(0.5, 6.));
    let s1 = Segment3D::new(at(x - a1.cos() * l1 * t1, y - a1.sin() * l1 * t1), at(x + a1.cos() * l1 * (1. - t1), y + a1.sin() * l1 * (1. - t1)));
    let s2 = Segment3D::new(at(x - a2.cos() * l2 * t2, y - a2.sin() * l2 * t2), at(x + a2.cos() * l2 * (1. - t2), y + a2.sin() * l2 * (1. - t2)));
    c.desc(format!("segments {:?} {:?} cross at {} {}", s1, s2, t1, t2));
    c.seen(&format!("{:.1} {:.1} {:.1}", t1, t2, (a1 - a2).sin()));
    ensure!((s1.length() - l1).abs() < 1e-9, "length {} instead of {}", s1.length(), l1);
    ensure!(s1.midpoint().distance(at(x + a1.cos() * l1 * (0.5 - t1), y + a1.sin() * l1 * (0.5 - t1))) < 1e-9, "midpoint");
    let e = (0. ..=1.).contains(&t1) && (0. ..=1.).contains(&t2);
    let mut p = Point3D::new(0., 0., 0.);
    ensure!(s1.intersect(&s2, &mut p) == e, "intersect = {}", !e);
    if e {
        ensure!(p.distance(at(x, y)) < 1e-6, "they cross at {} instead of {}", p, at(x, y));
        c.event("cross", 1);
    } else {
        c.event("apart", 1);
    }
    ensure!(s1.touches(&s2, &mut p) == e, "touches = {}", !e);
    match s1.get_intersection_pt(&s2) {
        Some((ta, tb)) => ensure!((ta - t1).abs() < 1e-6 && (tb - t2).abs() < 1e-6, "the lines cross at fractions {} {} instead of {} {}", ta, tb, t1, t2),
        None => return Err(Fail::Bad("lines that cross are reported not to".into())),
    }
    // points of the segment
    for _ in 0..5 {
        let k = f(&mut c.rng);
        let q = s1.start() + (s1.end() - s1.start()) * k;
        ensure!(s1.contains_point(q).map_err(Fail::Bad)? == (0. ..=1.).contains(&k), "contains the point at {} of its length: {}", k, !(0. ..=1.).contains(&k));
        let off = q + u.cross(v) * c.rng.range(0.01, 1.);
        ensure!(!s1.contains_point(off).map_err(Fail::Bad)?, "contains a point which is not collinear");
        c.event("points", 1);
    }
    ensure!(s1.compare(&Segment3D::new(s1.end(), s1.start())), "a segment and its reverse are different");
    Ok(())
}

// ---------------------------------------------------------------- intervals
use geometry::round_error::ApproxFloat as AF;
/// is low <= a+b <= high, exactly?
fn in_sum(i: AF, a: f64, b: f64) -> bool {
    let s = a + b;
    let bb = s - a;
    let e = (a - (s - bb)) + (b - bb);
    (i.low < s || (i.low == s && e >= 0.)) && (s < i.high || (s == i.high && e <= 0.))
}
fn in_prod(i: AF, a: f64, b: f64) -> bool {
    let p = a * b;
    let e = a.mul_add(b, -p);
    (i.low < p || (i.low == p && e >= 0.)) && (p < i.high || (p == i.high && e <= 0.))
}
fn in_quot(i: AF, a: f64, b: f64) -> bool {
    // low <= a/b <= high
    let l = i.low.mul_add(b, -a);
    let h = i.high.mul_add(b, -a);
    if b > 0. {
        l <= 0. && h >= 0.
    } else {
        l >= 0. && h <= 0.
    }
}
fn in_sqrt(i: AF, a: f64) -> bool {
    (i.low <= 0. || i.low.mul_add(i.low, -a) <= 0.) && i.high >= 0. && i.high.mul_add(i.high, -a) >= 0.
}
fn rnd_f(r: &mut Rng) -> f64 {
    let s = if r.chance(0.5) { 1. } else { -1. };
    match r.below(4) {
        0 => s * r.int(0, 20) as f64,
        1 => s * r.logu(1e-9, 1e9),
        2 => s * (1. + r.int(0, 3) as f64 * f64::EPSILON),
        _ => s * r.range(0., 10.),
    }
}
fn rnd_af(r: &mut Rng) -> AF {
    let v = rnd_f(r);
    match r.below(4) {
        0 => AF::from(v),
        1 => AF::from_value_and_error(v, v.abs() * r.logu(1e-16, 1e-2)),
        2 => AF::from_value_and_error(v, r.logu(1e-12, 10.)),
        _ => {
            let w = rnd_f(r);
            AF::from_bounds(v.min(w), v.max(w))
        }
    }
}
fn rnd_in(r: &mut Rng, i: AF) -> f64 {
    match r.below(4) {
        0 => i.low,
        1 => i.high,
        2 => i.midpoint().max(i.low).min(i.high),
        _ => (i.low + (i.high - i.low) * r.f()).max(i.low).min(i.high),
    }
}
fn intervals(c: &mut Case) -> R {
    for _ in 0..40 {
        let (x, y) = (rnd_af(&mut c.rng), rnd_af(&mut c.rng));
        let (a, b) = (rnd_in(&mut c.rng, x), rnd_in(&mut c.rng, y));
        let f = rnd_f(&mut c.rng);
        let d = format!("x={:?} y={:?} a={:e} b={:e} f={:e}", x, y, a, b, f);
        c.desc(d.clone());
        ensure!(in_sum(x + y, a, b), "a+b is not in x+y={:?}; {}", x + y, d);
        ensure!(in_sum(x - y, a, -b), "a-b is not in x-y={:?}; {}", x - y, d);
        ensure!(in_prod(x * y, a, b), "a*b is not in x*y={:?}; {}", x * y, d);
        ensure!(in_sum(-x, -a, 0.), "-a is not in -x={:?}; {}", -x, d);
        ensure!(in_sum(x + f, a, f), "a+f is not in x+f={:?}; {}", x + f, d);
        ensure!(in_sum(x - f, a, -f), "a-f is not in x-f={:?}; {}", x - f, d);
        ensure!(in_prod(x * f, a, f), "a*f is not in x*f={:?}; {}", x * f, d);
        let mut t = x;
        t += y;
        ensure!(in_sum(t, a, b), "a+b is not in x+=y: {:?}; {}", t, d);
        let mut t = x;
        t -= y;
        ensure!(in_sum(t, a, -b), "a-b is not in x-=y: {:?}; {}", t, d);
        let mut t = x;
        t += f;
        ensure!(in_sum(t, a, f), "a+f is not in x+=f: {:?}; {}", t, d);
        let mut t = x;
        t -= f;
        ensure!(in_sum(t, a, -f), "a-f is not in x-=f: {:?}; {}", t, d);
        if y.low > 0. || y.high < 0. {
            ensure!(in_quot(x / y, a, b), "a/b is not in x/y={:?}; {}", x / y, d);
            c.event("quotients", 1);
        }
        if f != 0. {
            ensure!(in_quot(x / f, a, f), "a/f is not in x/f={:?}; {}", x / f, d);
        }
        if x.low >= 0. {
            ensure!(in_sqrt(x.sqrt(), a), "sqrt(a) is not in sqrt(x)={:?}; {}", x.sqrt(), d);
            c.event("roots", 1);
        }
        // tight: exact operands give results within a few units in the last place
        let (ea, eb) = (AF::from(a), AF::from(b));
        let tol = |v: f64| v.abs() * 4. * f64::EPSILON + 1e-300;
        ensure!((ea + eb).absolute_error() <= tol(a + b), "the sum of exact numbers has an error of {:e}; {}", (ea + eb).absolute_error(), d);
        ensure!((ea * eb).absolute_error() <= tol(a * b), "the product of exact numbers has an error of {:e}; {}", (ea * eb).absolute_error(), d);
        c.event("triples", 1);
        c.seen(&format!("{:?}{:?}{:?}{:?}", x.low < 0., x.high < 0., y.low < 0., y.high < 0.) as &str);
    }
    Ok(())
}
fn quadratics(c: &mut Case) -> R {
    // dyadic roots and leading coefficient: the coefficients are exact
    let g = |r: &mut Rng| r.int(-400, 400) as f64 / 16.;
    let (mut r1, mut r2) = (g(&mut c.rng), g(&mut c.rng));
    if c.rng.chance(0.2) {
        r2 = -r1;
    }
    if r1 > r2 {
        std::mem::swap(&mut r1, &mut r2);
    }
    let mut a = c.rng.int(1, 64) as f64 / 4.;
    if c.rng.chance(0.5) {
        a = -a;
    }
    let (b, cc) = (-a * (r1 + r2), a * r1 * r2);
    c.desc(format!("{} x^2 + {} x + {}: roots {} and {}", a, b, cc, r1, r2));
    let s = AF::solve_quadratic(a.into(), b.into(), cc.into());
    if r2 - r1 > 0.01 {
        match s {
            None => return Err(Fail::Bad(format!("no roots found for {} x^2 + {} x + {}", a, b, cc))),
            Some((x1, x2)) => {
                let has = |i: AF, r: f64| i.low <= r && r <= i.high;
                ensure!(has(x1, r1) && has(x2, r2), "roots {} and {} reported as {:?} and {:?}", r1, r2, x1, x2);
                ensure!(x1.absolute_error() < 1e-6 && x2.absolute_error() < 1e-6, "roots {:?} and {:?} are imprecise", x1, x2);
            }
        }
        c.event("two_roots", 1);
    }
    // no real roots
    let k = c.rng.range(0.01, 10.);
    let (b, cc) = (-a * 2. * r1, a * (r1 * r1 + k));
    ensure!(AF::solve_quadratic(a.into(), b.into(), cc.into()).is_none(), "roots found for {} ((x - {})^2 + {})", a, r1, k);
    c.event("no_roots", 1);
    c.seen(&format!("{} {} {}", a, r1, r2));
    Ok(())
}

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "G09",
        rule: "random intervals (exact, tight, wide, across zero) and points in them: sums, differences, products, quotients, square roots, their scalar and in-place forms; exactness decided with error-free transformations (no rounding in the oracle). Quadratics with dyadic coefficients and roots. Non-trivial: distinct sign patterns and quadratics.",
        assumptions: &["division by intervals which contain zero, square roots of negative numbers and underflow are not judged"],
        workloads: &[
            wl("intervals", 4000, 400000, intervals).need(&[("triples", 100000), ("quotients", 50000), ("roots", 20000)]),
            wl("quadratics", 10000, 500000, quadratics).need(&[("two_roots", 9000), ("no_roots", 9000)]),
        ],
    },
    &Prop {
        id: "G05",
        rule: "random spheres, cylinders (given by two points or transformed), their partial versions, disks, annuli, sectors, triangles, planes and distant sources, against rays from inside and outside, axis-parallel or not; hit or miss, point, normal, side, area and bounds compared with closed forms. Non-trivial: distinct (kind, size class, orientation, partial limits).",
        assumptions: &["grazing rays (closest approach within 1e-4 of the border) and origins on the surface are not judged"],
        workloads: &[
            wl("round", 3000, 60000, round).need(&[("hits", 5000), ("misses", 5000), ("front", 1000), ("back", 1000)]),
            wl("flat", 3000, 60000, flat).need(&[("hits", 3000), ("misses", 3000), ("front", 1000), ("back", 1000)]),
            wl("distant", 1000, 10000, distant).need(&[("seen", 1000), ("not_seen", 1000)]),
        ],
    },
    &Prop {
        id: "G06",
        rule: "random boxes (also flat) and rays: through interior points, running away, axis-parallel with signed zeros, arbitrary; pairs of boxes. Non-trivial: distinct (overlap, extents, largest axis).",
        assumptions: &["rays that lie within the plane of a face are not judged"],
        workloads: &[
            wl("boxes", 5000, 100000, boxes).need(&[("hits", 20000), ("misses", 10000), ("random_rays", 20000)]),
            wl("segments", 4000, 60000, segments).need(&[("cross", 800), ("apart", 800)]),
        ],
    },
    &Prop {
        id: "G07",
        rule: "products of 1-5 random translations, rotations and scalings (also mirrored) against an independent affine map: points, vectors, normals, rays, boxes, and their inverses. Non-trivial: distinct (sequence of kinds, handedness).",
        assumptions: &[],
        workloads: &[
            wl("transforms", 5000, 100000, transforms).need(&[("points", 20000), ("boxes", 8000)]),
            wl("errors", 20000, 300000, errors).need(&[("bounds", 50000)]),
        ],
    },
];
